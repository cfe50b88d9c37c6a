From ed2275d717c71d70892a3a4b19e37161f92aa1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:56 +0000
Subject: [PATCH 01/99] fix: array of dimension zero after a container
 corrupted the memory layout

---
 typelib/memory_layout.cc | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/typelib/memory_layout.cc b/typelib/memory_layout.cc
index e8272f2..ba07c1b 100644
--- a/typelib/memory_layout.cc
+++ b/typelib/memory_layout.cc
@@ -177,7 +177,12 @@ MemoryLayout::const_iterator MemoryLayout::simplifyInit(const_iterator it, const
             size_t content_i = simplified.init_size();
             it = simplifyInitBlock(++it, end, simplified);
             size_t added_ops = simplified.init_size() - content_i;
-            if (added_ops == 2 && simplified.init_ops[content_i] == FLAG_INIT_SKIP)
+            if (array_size == 0 || added_ops == 0)
+            {
+                // Void all the modifications we've made so far
+                simplified.init_ops.resize(content_i - (current_op_count ? 4 : 2));
+            }
+            else if (added_ops == 2 && simplified.init_ops[content_i] == FLAG_INIT_SKIP)
             {
                 size_t count = simplified.init_ops[content_i + 1] * array_size;
                 if (current_op_count)
@@ -191,11 +196,6 @@ MemoryLayout::const_iterator MemoryLayout::simplifyInit(const_iterator it, const
                     simplified.init_ops.resize(content_i - 2);
                 }
             }
-            else if (added_ops == 0)
-            {
-                // Void all the modifications we've made so far
-                simplified.init_ops.resize(content_i - 4);
-            }
             else
             {
                 simplified.pushInitEnd();
@@ -280,7 +280,12 @@ MemoryLayout::const_iterator MemoryLayout::simplify(bool merge_skip_copy, bool r
             // Check whether we should squash the array and its contents.  Note
             // that the only ops that have one operand are FLAG_SKIP and
             // FLAG_MEMCPY
-            if (added_ops == 2)
+            if (array_size == 0 || added_ops == 0)
+            {
+                // Void all the modifications we've made so far
+                simplified.ops.resize(content_i - (current_op_count ? 4 : 2));
+            }
+            else if (added_ops == 2)
             {
                 size_t op    = simplified.ops[content_i];
                 size_t count = simplified.ops[content_i + 1] * array_size;
@@ -309,11 +314,6 @@ MemoryLayout::const_iterator MemoryLayout::simplify(bool merge_skip_copy, bool r
                     simplified.ops.resize(content_i - 2);
                 }
             }
-            else if (added_ops == 0)
-            {
-                // Void all the modifications we've made so far
-                simplified.ops.resize(content_i - 4);
-            }
             else
             {
                 simplified.pushEnd();
-- 
2.43.0


From 256dcbb7de19c6a160902b6dfaa012f40decb11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:56 +0000
Subject: [PATCH 02/99] fix: loading an empty container did not clear the
 destination container

---
 typelib/value_ops.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/typelib/value_ops.cc b/typelib/value_ops.cc
index 104f4cb..031486a 100644
--- a/typelib/value_ops.cc
+++ b/typelib/value_ops.cc
@@ -172,7 +172,10 @@ boost::tuple<size_t, MemoryLayout::const_iterator> ValueOps::load(
                 boost::uint64_t element_count;
                 stream.read(reinterpret_cast< boost::uint8_t* >(&element_count), sizeof( boost::uint64_t ));
                 if (element_count == 0)
+                {
+                    type->clear(container_ptr);
                     it = MemoryLayout::skipBlock(++it, end);
+                }
                 else
                 {
                     it = type->load(container_ptr, element_count, stream, ++it, end);
-- 
2.43.0


From fe0ac9f9df20f48d1da6e1233baeea353a37b69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:56 +0000
Subject: [PATCH 03/99] fix: element counts that overflow the vector size were
 accepted when loading

---
 lang/csupport/containers.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lang/csupport/containers.cc b/lang/csupport/containers.cc
index b537173..b1cf7ee 100644
--- a/lang/csupport/containers.cc
+++ b/lang/csupport/containers.cc
@@ -6,6 +6,7 @@
 #include <boost/tuple/tuple.hpp>
 #include <string.h>
 #include <limits>
+#include <stdexcept>
 
 #include <iostream>
 
@@ -101,6 +102,8 @@ void Vector::resize(std::vector<uint8_t>* ptr, size_t new_size) const
 
     if (!hasElementLayout())
         throw std::runtime_error("could not compute layout for element type " + element_t.getName() + ", cannot copy");
+    if (element_size != 0 && new_size > ptr->max_size() / element_size)
+        throw std::length_error("too many elements in a vector of " + element_t.getName());
 
     if (isElementMemcpy())
     {
-- 
2.43.0


From ebc8e1dc21b3ab909b21b3bbc043104f9b5fad54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:30 +0000
Subject: [PATCH 04/99] fix: vectors of padded elements could not be marshalled
 with an unmerged layout

---
 lang/csupport/containers.cc | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/lang/csupport/containers.cc b/lang/csupport/containers.cc
index b1cf7ee..0f5a893 100644
--- a/lang/csupport/containers.cc
+++ b/lang/csupport/containers.cc
@@ -300,6 +300,17 @@ void Vector::delete_if_impl(void* ptr, DeleteIfPredicate& pred) const
     }
 }
 
+/** Returns true if the given marshalling code copies a whole element in one go.
+ * It does not have to, even if isElementMemcpy() is true, as the caller can use
+ * a layout in which padding is skipped
+ */
+static bool copiesWholeElement(Type const& element_t,
+        Container::MarshalOps::const_iterator const begin, Container::MarshalOps::const_iterator const end)
+{
+    return (end - begin) > 2 && begin[0] == MemLayout::FLAG_MEMCPY &&
+        begin[1] == element_t.getSize() && begin[2] == MemLayout::FLAG_END;
+}
+
 Container::MarshalOps::const_iterator Vector::dump(
         void const* container_ptr, size_t element_count, OutputStream& stream,
         MarshalOps::const_iterator const begin, MarshalOps::const_iterator const end) const
@@ -308,7 +319,7 @@ Container::MarshalOps::const_iterator Vector::dump(
         reinterpret_cast< std::vector<uint8_t> const* >(container_ptr);
 
     MarshalOps::const_iterator it = begin;
-    if (isElementMemcpy())
+    if (isElementMemcpy() && copiesWholeElement(getIndirection(), begin, end))
     {
         // optimize a bit: do a huge memcpy if possible
         size_t size       = *(++it) * element_count;
@@ -342,7 +353,7 @@ Container::MarshalOps::const_iterator Vector::load(
     resize(vector_ptr, element_count);
 
     MarshalOps::const_iterator it = begin;
-    if (isElementMemcpy())
+    if (isElementMemcpy() && copiesWholeElement(getIndirection(), begin, end))
     {
         size_t size       = *(++it) * element_count;
         stream.read(&(*vector_ptr)[0], size);
-- 
2.43.0


From 7f3dfe802f24f7071f7ec3341d97c652fc7db12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:30 +0000
Subject: [PATCH 05/99] fix: layouts dropped the trailing padding even when
 asked to keep it

---
 typelib/memory_layout.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/typelib/memory_layout.cc b/typelib/memory_layout.cc
index ba07c1b..374e5d4 100644
--- a/typelib/memory_layout.cc
+++ b/typelib/memory_layout.cc
@@ -359,7 +359,9 @@ MemoryLayout::const_iterator MemoryLayout::simplify(bool merge_skip_copy, bool r
 
     if (current_op_count)
     {
-        if (!remove_trailing_skips || current_op != FLAG_SKIP || depth > 0)
+        if (!remove_trailing_skips)
+            simplified.pushGenericOp(current_op, current_op_count);
+        else if (current_op != FLAG_SKIP || depth > 0)
             simplified.pushGenericOp(current_op, current_op_count - current_skip_count);
     }
 
-- 
2.43.0


From b88e2633fbef7bca68bf8d324c1b32fe8d7aed73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:30 +0000
Subject: [PATCH 06/99] fix: trailing padding of a nested compound was not
 accounted for when loading

---
 typelib/typemodel.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/typelib/typemodel.cc b/typelib/typemodel.cc
index bfe0c67..4a3f687 100644
--- a/typelib/typemodel.cc
+++ b/typelib/typemodel.cc
@@ -327,13 +327,17 @@ namespace Typelib
         FieldList::const_iterator const end = m_fields.end();
 
         int max_offset = 0;
+        unsigned int field_padding = 0;
         for (; it != end; ++it)
         {
             int offset = it->getOffset() + it->getType().getSize();
             if (offset > max_offset)
+            {
                 max_offset = offset;
+                field_padding = it->getType().getTrailingPadding();
+            }
         }
-        return getSize() - max_offset;
+        return getSize() - max_offset + field_padding;
     }
     bool Compound::do_compare(Type const& type, bool equality, RecursionStack& stack) const
     {
-- 
2.43.0


From ee8ed4ed8045d0f802ab076fa811ddf2672aae5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:48 +0000
Subject: [PATCH 07/99] fix: layouts refused pointers and opaques inside arrays
 and containers

The visitors used for the elements were created without the accept flags of the
visitor that creates them.
---
 typelib/memory_layout.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/typelib/memory_layout.cc b/typelib/memory_layout.cc
index 374e5d4..8fa968c 100644
--- a/typelib/memory_layout.cc
+++ b/typelib/memory_layout.cc
@@ -573,7 +573,7 @@ bool MemLayout::Visitor::visit_ (Enum    const& type)
 bool MemLayout::Visitor::visit_ (Array   const& type)
 {
     MemoryLayout subops;
-    MemLayout::Visitor array_visitor(subops);
+    MemLayout::Visitor array_visitor(subops, accept_pointers, accept_opaques);
     array_visitor.apply(type.getIndirection());
     ops.pushArray(type, subops);
     return true;
@@ -581,7 +581,7 @@ bool MemLayout::Visitor::visit_ (Array   const& type)
 bool MemLayout::Visitor::visit_ (Container const& type)
 {
     MemoryLayout subops;
-    MemLayout::Visitor container_visitor(subops);
+    MemLayout::Visitor container_visitor(subops, accept_pointers, accept_opaques);
     container_visitor.apply(type.getIndirection());
     ops.pushContainer(type, subops);
     return true;
-- 
2.43.0


From c5fb9dda7a2e4cc755145a2407ffef3f5ea230fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:48 +0000
Subject: [PATCH 08/99] fix: computing a layout wrote debugging output on
 stdout

---
 typelib/memory_layout.cc | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/typelib/memory_layout.cc b/typelib/memory_layout.cc
index 8fa968c..10ddd5e 100644
--- a/typelib/memory_layout.cc
+++ b/typelib/memory_layout.cc
@@ -220,10 +220,7 @@ MemoryLayout::const_iterator MemoryLayout::simplifyInit(const_iterator it, const
     }
 
     if (current_op_count && !shave_last_skip)
-    {
-        std::cout << "adding " << current_op_count << " " << shave_last_skip << std::endl;
         simplified.pushInitSkip(current_op_count);
-    }
     else if (!current_init_data.empty())
         simplified.pushInit(current_init_data);
 
-- 
2.43.0


From 8d881db3ccd4cda0b41f6e4de401fe49f5fbd1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:48 +0000
Subject: [PATCH 09/99] fix: pushing an element of a vector in that same vector
 read freed memory

---
 lang/csupport/containers.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lang/csupport/containers.cc b/lang/csupport/containers.cc
index 0f5a893..45d8131 100644
--- a/lang/csupport/containers.cc
+++ b/lang/csupport/containers.cc
@@ -152,8 +152,16 @@ void Vector::push(void* ptr, Value v) const
     std::vector<uint8_t>* vector_ptr =
         reinterpret_cast< std::vector<uint8_t>* >(ptr);
 
+    // The value can be an element of this very vector, in which case it moves
+    // along with it
+    uint8_t* value_ptr = reinterpret_cast<uint8_t*>(v.getData());
+    uint8_t* old_begin = vector_ptr->data();
+    bool is_own_element = value_ptr >= old_begin && value_ptr < old_begin + vector_ptr->size();
+
     size_t size = getElementCount(ptr);
     resize(vector_ptr, size + 1);
+    if (is_own_element)
+        v = Value(vector_ptr->data() + (value_ptr - old_begin), v.getType());
     Typelib::copy(
             Value(&(*vector_ptr)[size * getIndirection().getSize()], getIndirection()),
             v);
-- 
2.43.0


From 99c63f069d8c65adaf6b8b8b13ff0c981473a9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:48 +0000
Subject: [PATCH 10/99] fix: erase() and delete_if() did nothing on strings

---
 lang/csupport/containers.cc | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/lang/csupport/containers.cc b/lang/csupport/containers.cc
index 45d8131..c6e5677 100644
--- a/lang/csupport/containers.cc
+++ b/lang/csupport/containers.cc
@@ -450,7 +450,17 @@ void String::push(void* ptr, Value v) const
 
 bool String::erase(void* ptr, Value v) const
 {
-    return false;
+    if (v.getType() != getIndirection())
+        throw std::runtime_error("type mismatch in string removal");
+
+    std::string* string_ptr =
+        reinterpret_cast< std::string* >(ptr);
+
+    size_t pos = string_ptr->find(*reinterpret_cast<std::string::value_type*>(v.getData()));
+    if (pos == std::string::npos)
+        return false;
+    string_ptr->erase(pos, 1);
+    return true;
 }
 
 bool String::compare(void* ptr, void* other) const
@@ -508,7 +518,18 @@ Container::MarshalOps::const_iterator String::load(
     return begin + 2;
 }
 void String::delete_if_impl(void* ptr, DeleteIfPredicate& pred) const
-{}
+{
+    std::string* string_ptr =
+        reinterpret_cast< std::string* >(ptr);
+
+    for (size_t i = 0; i < string_ptr->length(); )
+    {
+        if (pred.should_delete(Value(&(*string_ptr)[i], getIndirection())))
+            string_ptr->erase(i, 1);
+        else
+            ++i;
+    }
+}
 
 Container const& String::factory(Registry& registry, std::list<Type const*> const& on)
 {
-- 
2.43.0


From 99c175d7054625815818cd9e468279268fff2a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:48 +0000
Subject: [PATCH 11/99] fix: swapping an array of dimension zero used an
 uninitialized iterator

---
 typelib/endianness.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/typelib/endianness.cc b/typelib/endianness.cc
index 2f148f1..6d94b02 100644
--- a/typelib/endianness.cc
+++ b/typelib/endianness.cc
@@ -62,6 +62,9 @@ namespace Typelib {
     { throw UnsupportedEndianSwap("pointers"); }
     bool CompileEndianSwapVisitor::visit_ (Array const& type)
     {
+        if (type.getSize() == 0)
+            return true;
+
         if (type.getIndirection().getCategory() == Type::Array)
         {
             size_t current_size = m_compiled.size();
-- 
2.43.0


From 8bbbfa87527f84990bb9b64535c5ad9dee3bdd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:48 +0000
Subject: [PATCH 12/99] fix: endian swap was shifted after the trailing padding
 of a compound

---
 typelib/endianness.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/typelib/endianness.cc b/typelib/endianness.cc
index 6d94b02..6fb087f 100644
--- a/typelib/endianness.cc
+++ b/typelib/endianness.cc
@@ -117,6 +117,15 @@ namespace Typelib {
             dispatch(it->getType());
             m_output_index = new_index + it->getType().getSize();
         }
+
+        // Account for the trailing padding, the compound might be followed by
+        // another object
+        size_t end_index = base_index + type.getSize();
+        if (end_index > m_output_index)
+        {
+            skip(end_index - m_output_index);
+            m_output_index = end_index;
+        }
         return true;
     }
 
-- 
2.43.0


From 9a197a12b28065d723272c8a0cf2c1987f7431df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:48 +0000
Subject: [PATCH 13/99] fix: opaque fields had a column in the CSV header but
 none in the CSV lines

---
 typelib/csvoutput.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typelib/csvoutput.cc b/typelib/csvoutput.cc
index d7b4f45..4929288 100644
--- a/typelib/csvoutput.cc
+++ b/typelib/csvoutput.cc
@@ -95,7 +95,7 @@ namespace
             return true;
         }
         using ValueVisitor::visit_;
-        bool visit_ (Value value, OpaqueType const& type)
+        bool visit_ (Value const& value, OpaqueType const& type)
         {
             display("<" + type.getName() + ">");
             return true;
-- 
2.43.0


From f22a553fbd479695ad474983c656197711b9454a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:48 +0000
Subject: [PATCH 14/99] fix: names of pointers to arrays and templates were
 refused

As well as arrays followed by another template argument. These types exist and
are built by the registry, but could not be added to it.
---
 typelib/typename.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/typelib/typename.cc b/typelib/typename.cc
index b4a8bc6..e144435 100644
--- a/typelib/typename.cc
+++ b/typelib/typename.cc
@@ -124,6 +124,9 @@ namespace Typelib
                         return make_pair(false, i);
                 }
 
+                while (i + 1 < s.length() && s[i + 1] == '*')
+                    i++;
+
                 start_pos = i + 1;
                 if (i + 1 < s.length())
                 {
@@ -151,12 +154,15 @@ namespace Typelib
                 if (string(s, start_pos, i - start_pos).find_first_not_of("0123456789") != string::npos)
                     return make_pair(false, start_pos);
 
+                while (i + 1 < s.length() && s[i + 1] == '*')
+                    i++;
+
                 start_pos = i + 1;
                 if (i + 1 < s.length())
                 {
                     if (s[i + 1] == '/')
                         i++;
-                    else if (s[i + 1] != '>' && s[i + 1] != '[')
+                    else if (s[i + 1] != '>' && s[i + 1] != '[' && s[i + 1] != ',')
                         return make_pair(false, i + 1);
                 }
             }
-- 
2.43.0


From 46131b157987a4617d2c35dfc32d6c004cd70590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:07 +0000
Subject: [PATCH 15/99] fix: relative names depended on the order in which the
 types were added

The type in the innermost namespace is the one to be used, as it is the case
when the default namespace is set, whatever the alphabetical order.
---
 typelib/registry.cc | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/typelib/registry.cc b/typelib/registry.cc
index 3ed6c94..992ec5e 100644
--- a/typelib/registry.cc
+++ b/typelib/registry.cc
@@ -342,28 +342,32 @@ namespace Typelib
         m_global.insert (make_pair(name, regtype));
         m_current.insert(make_pair(name, regtype));
 
+        // The namespaces that are searched for relative names, outermost first
+        list<string> spaces(1, NamespaceMarkString);
         NameTokenizer tokens( m_namespace );
         NameTokenizer::const_iterator ns_it = tokens.begin();
-        std::string cur_space = NamespaceMarkString;
-        while(true)
+        for (; ns_it != tokens.end(); ++ns_it)
+            spaces.push_back(spaces.back() + *ns_it + NamespaceMarkString);
+
+        for (list<string>::const_iterator it = spaces.begin(); it != spaces.end(); ++it)
         {
-            if (name.size() <= cur_space.size() || string(name, 0, cur_space.size()) != cur_space)
+            if (name.size() <= it->size() || string(name, 0, it->size()) != *it)
                 break;
 
-            string cur_name  = getRelativeName(name, cur_space);
+            string cur_name  = getRelativeName(name, *it);
+
+            // Check if there is already a type with the same relative name in
+            // a more specific namespace
+            list<string>::const_iterator inner = it;
+            for (++inner; inner != spaces.end(); ++inner)
+                if (m_global.find(*inner + cur_name) != m_global.end())
+                    break;
 
-            // Check if there is already a type with the same relative name
-            TypeMap::iterator it = m_current.find(cur_name);
-            if (it == m_current.end() || !nameSort(it->second.type->getName(), name))
+            if (inner == spaces.end())
             {
                 m_current.erase(cur_name);
                 m_current.insert(make_pair(cur_name, regtype));
             }
-
-            if (ns_it == tokens.end())
-                break;
-            cur_space += *ns_it + NamespaceMarkString;
-            ++ns_it;
         }
     }
 
-- 
2.43.0


From 1f7c0e71c04fdbcce348875a24360c0365ac4958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:07 +0000
Subject: [PATCH 16/99] fix: types hidden by a removed type could not be found
 by relative name

---
 typelib/registry.cc | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/typelib/registry.cc b/typelib/registry.cc
index 992ec5e..51fd8dc 100644
--- a/typelib/registry.cc
+++ b/typelib/registry.cc
@@ -654,13 +654,8 @@ namespace Typelib
             else ++global_it;
         }
 
-        NameMap::iterator current_it = m_current.begin(), current_end = m_current.end();
-        while (current_it != current_end)
-        {
-            if (types.count(current_it->second.type))
-                m_current.erase(current_it++);
-            else ++current_it;
-        }
+        // The removed types might have been hiding others
+        updateCurrentNameMap();
 
         return types;
     }
-- 
2.43.0


From 73cf2cd9bac27df3a2d584873ab82f50162bd085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:07 +0000
Subject: [PATCH 17/99] fix: the source of an alias was given to the type it
 designates

---
 typelib/registry.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/typelib/registry.cc b/typelib/registry.cc
index 51fd8dc..7a1470a 100644
--- a/typelib/registry.cc
+++ b/typelib/registry.cc
@@ -186,7 +186,12 @@ namespace Typelib
                 continue;
 
             string source_id = other_it.getSource();
-            if (!source_id.empty() && it.getSource().empty())
+            if (source_id.empty() || !it.getSource().empty())
+                continue;
+
+            if (it.isAlias())
+                m_global.find(it.getName())->second.source_id = source_id;
+            else
                 setSourceID(*it, source_id);
         }
     }
-- 
2.43.0


From 9fe483b1c348924bf304ef6bb6cb3f9b9215d850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:07 +0000
Subject: [PATCH 18/99] fix: minimal() did not keep the source and persistence
 of aliases

---
 typelib/registry.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typelib/registry.cc b/typelib/registry.cc
index 7a1470a..c5e1c8d 100644
--- a/typelib/registry.cc
+++ b/typelib/registry.cc
@@ -212,7 +212,7 @@ namespace Typelib
             {
                 if (!it.isAlias()) continue;
                 if (result->has(it->getName(), false))
-                    result->alias(it->getName(), it.getName());
+                    result->alias(it->getName(), it.getName(), it.isPersistent(), it.getSource());
             }
         }
 
-- 
2.43.0


From f3c1d869940cdc1cce1a84e3c327ae1ddeb4361c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:07 +0000
Subject: [PATCH 19/99] fix: a refused merge of a recursive type left dangling
 types in the registry

---
 typelib/typemodel.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/typelib/typemodel.cc b/typelib/typemodel.cc
index 4a3f687..28caf94 100644
--- a/typelib/typemodel.cc
+++ b/typelib/typemodel.cc
@@ -391,6 +391,13 @@ namespace Typelib
         }
         catch(...) {
             stack.erase(onStackIter);
+
+            // If the type is recursive, types that refer to it are already in
+            // the registry
+            std::set<Type*> invalid = registry.remove(*result);
+            invalid.erase(result.get());
+            for (std::set<Type*>::iterator it = invalid.begin(); it != invalid.end(); ++it)
+                delete *it;
             throw;
         }
 
-- 
2.43.0


From b74db367d08ab397f8564ce11fa418778ed7aa30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:55 +0000
Subject: [PATCH 20/99] fix: isSame() was not symmetric when a type was the
 counterpart of two others

As type names do not matter, struct { A a; A b; } and struct { A a; B b; }
are the same if A and B are. This was true in one direction only.
---
 typelib/typemodel.cc | 46 +++++++++++++++++++++-----------------------
 typelib/typemodel.hh | 25 +++++++++++++-----------
 2 files changed, 36 insertions(+), 35 deletions(-)

diff --git a/typelib/typemodel.cc b/typelib/typemodel.cc
index 28caf94..93cb7af 100644
--- a/typelib/typemodel.cc
+++ b/typelib/typemodel.cc
@@ -56,7 +56,7 @@ namespace Typelib
         if (this == &with)
             return true;
 
-        RecursionStack stack;
+        ComparisonStack stack;
         stack.insert(make_pair(this, &with));
         return do_compare(with, true, stack);
     }
@@ -65,7 +65,7 @@ namespace Typelib
         if (this == &with)
             return true;
 
-        RecursionStack stack;
+        ComparisonStack stack;
         stack.insert(make_pair(this, &with));
         return do_compare(with, false, stack);
     }
@@ -73,32 +73,30 @@ namespace Typelib
     unsigned int Type::getTrailingPadding() const
     { return 0; }
 
-    bool Type::rec_compare(Type const& left, Type const& right, bool equality, RecursionStack& stack) const
+    bool Type::rec_compare(Type const& left, Type const& right, bool equality, ComparisonStack& stack) const
     {
         if (&left == &right)
             return true;
 
-        RecursionStack::const_iterator it = stack.find(&left);
-        if (it != stack.end())
-        {
-            /** One type cannot be equal to two different types. So either we
-             * are already comparing left and right and it is fine (return
-             * true). Or we are comparing it with a different type and that
-             * means the two types are different (return false)
-             */
-            return (&right == it->second);
-        }
+        /** Either we are already comparing left and right (or they have been
+         * found to be equal already) and it is fine. Note that one type can
+         * very well be the same than two different types, as names do not
+         * matter.
+         */
+        std::pair<ComparisonStack::iterator, bool> inserted =
+            stack.insert( make_pair(&left, &right) );
+        if (!inserted.second)
+            return true;
 
-        RecursionStack::iterator new_it = stack.insert( make_pair(&left, &right) ).first;
         try {
             return left.do_compare(right, equality, stack);
         }
         catch(...) {
-            stack.erase(new_it);
+            stack.erase(inserted.first);
             throw;
         }
     }
-    bool Type::do_compare(Type const& other, bool equality, RecursionStack& stack) const
+    bool Type::do_compare(Type const& other, bool equality, ComparisonStack& stack) const
     { return (getSize() == other.getSize() && getCategory() == other.getCategory()); }
 
     Type const& Type::merge(Registry& registry) const
@@ -115,7 +113,7 @@ namespace Typelib
         Type const* old_type = registry.get(getName());
         if (old_type)
         {
-            if (old_type->do_compare(*this, true, stack))
+            if (old_type->isSame(*this))
             {
                 stack.insert(make_pair(this, old_type));
                 return old_type;
@@ -237,13 +235,13 @@ namespace Typelib
             m_values[it->first].insert(it->second.begin(), it->second.end());
     }
 
-    bool OpaqueType::do_compare(Type const& other, bool equality, std::map<Type const*, Type const*>& stack) const
+    bool OpaqueType::do_compare(Type const& other, bool equality, ComparisonStack& stack) const
     { return Type::do_compare(other, equality, stack) && getName() == other.getName(); }
 
     Numeric::Numeric(std::string const& name, size_t size, NumericCategory category)
         : Type(name, size, Type::Numeric), m_category(category) {}
     Numeric::NumericCategory Numeric::getNumericCategory() const { return m_category; }
-    bool Numeric::do_compare(Type const& type, bool equality, RecursionStack& stack) const
+    bool Numeric::do_compare(Type const& type, bool equality, ComparisonStack& stack) const
     { return getSize() == type.getSize() && getCategory() == type.getCategory() &&
         m_category == static_cast<Numeric const&>(type).m_category; }
     Type* Numeric::do_merge(Registry& registry, RecursionStack& stack) const
@@ -253,7 +251,7 @@ namespace Typelib
         : Type(name, size, category)
         , m_indirection(on) {}
     Type const& Indirect::getIndirection() const { return m_indirection; }
-    bool Indirect::do_compare(Type const& type, bool equality, RecursionStack& stack) const
+    bool Indirect::do_compare(Type const& type, bool equality, ComparisonStack& stack) const
     { return Type::do_compare(type, equality, stack) &&
         rec_compare(m_indirection, static_cast<Indirect const&>(type).m_indirection, equality, stack); }
     std::set<Type const*> Indirect::dependsOn() const
@@ -339,7 +337,7 @@ namespace Typelib
         }
         return getSize() - max_offset + field_padding;
     }
-    bool Compound::do_compare(Type const& type, bool equality, RecursionStack& stack) const
+    bool Compound::do_compare(Type const& type, bool equality, ComparisonStack& stack) const
     {
         if (type.getCategory() != Type::Compound)
             return false;
@@ -465,7 +463,7 @@ namespace Typelib
         : Type (name, sizeof(FindSizeOfEnum), Type::Enum)
         , m_last_value(initial_value - 1) { }
     Enum::ValueMap const& Enum::values() const { return m_values; }
-    bool Enum::do_compare(Type const& type, bool equality, RecursionStack& stack) const
+    bool Enum::do_compare(Type const& type, bool equality, ComparisonStack& stack) const
     {
         Enum const& other_type = static_cast<Enum const&>(type);
         if (!Type::do_compare(type, equality, stack))
@@ -544,7 +542,7 @@ namespace Typelib
         return stream.str();
     }
     size_t  Array::getDimension() const { return m_dimension; }
-    bool Array::do_compare(Type const& type, bool equality, RecursionStack& stack) const
+    bool Array::do_compare(Type const& type, bool equality, ComparisonStack& stack) const
     {
         if (!Type::do_compare(type, equality, stack))
             return false;
@@ -615,7 +613,7 @@ namespace Typelib
         return (*it->second)(r, on);
     }
 
-    bool Container::do_compare(Type const& other, bool equality, RecursionStack& stack) const
+    bool Container::do_compare(Type const& other, bool equality, ComparisonStack& stack) const
     {
         if (!Type::do_compare(other, true, stack))
             return false;
diff --git a/typelib/typemodel.hh b/typelib/typemodel.hh
index 91d6e15..2c84b7f 100644
--- a/typelib/typemodel.hh
+++ b/typelib/typemodel.hh
@@ -164,9 +164,12 @@ namespace Typelib
          */
         Type const& merge(Registry& registry) const;
 
-        /** Foreign => local mapping for merge() and isSame() */
+        /** Foreign => local mapping for merge() */
         typedef std::map<Type const*, Type const*> RecursionStack;
 
+        /** Pairs of types that are being compared in isSame() and canCastTo() */
+        typedef std::set< std::pair<Type const*, Type const*> > ComparisonStack;
+
         /** Base merge method. The default implementation should be fine for
          * most types.
          *
@@ -220,14 +223,14 @@ namespace Typelib
          * The base definition compares the name, size and category of the
          * types.
          */
-        virtual bool do_compare(Type const& other, bool equality, std::map<Type const*, Type const*>& stack) const;
+        virtual bool do_compare(Type const& other, bool equality, ComparisonStack& stack) const;
 
         /** Called by do_compare to compare +left+ to +right+. This method takes
          * into account potential loops in the recursion
          *
          * See do_compare for a description of the equality flag.
          */
-        bool rec_compare(Type const& left, Type const& right, bool equality, RecursionStack& stack) const;
+        bool rec_compare(Type const& left, Type const& right, bool equality, ComparisonStack& stack) const;
 
         /** Checks if there is already a type with the same name and definition
          * than *this in \c registry. If that is the case, returns it, otherwise
@@ -256,7 +259,7 @@ namespace Typelib
     public:
         NullType(std::string const& name) : Type(name, 0, Type::NullType ) {}
         virtual std::set<Type const*> dependsOn() const { return std::set<Type const*>(); }
-        virtual bool do_compare(Type const& other, bool equality, std::map<Type const*, Type const*>& stack) const
+        virtual bool do_compare(Type const& other, bool equality, ComparisonStack& stack) const
         { return other.getName() == getName(); }
 
     private:
@@ -272,7 +275,7 @@ namespace Typelib
     public:
         OpaqueType(std::string const& name, size_t size) : Type(name, size, Type::Opaque) {}
         virtual std::set<Type const*> dependsOn() const { return std::set<Type const*>(); }
-        virtual bool do_compare(Type const& other, bool equality, std::map<Type const*, Type const*>& stack) const;
+        virtual bool do_compare(Type const& other, bool equality, ComparisonStack& stack) const;
         virtual Type* do_merge(Registry& registry, RecursionStack& stack) const { return new OpaqueType(*this); }
     };
 
@@ -299,7 +302,7 @@ namespace Typelib
         virtual std::set<Type const*> dependsOn() const { return std::set<Type const*>(); }
 
     private:
-        virtual bool do_compare(Type const& other, bool equality, RecursionStack& stack) const;
+        virtual bool do_compare(Type const& other, bool equality, ComparisonStack& stack) const;
         virtual Type* do_merge(Registry& registry, RecursionStack& stack) const;
         NumericCategory m_category;
     };
@@ -349,7 +352,7 @@ namespace Typelib
         Enum::integral_type getNextValue() const;
 
     private:
-        virtual bool do_compare(Type const& other, bool equality, RecursionStack& stack) const;
+        virtual bool do_compare(Type const& other, bool equality, ComparisonStack& stack) const;
         virtual Type* do_merge(Registry& registry, RecursionStack& stack) const;
         integral_type m_last_value;
         ValueMap m_values;
@@ -427,7 +430,7 @@ namespace Typelib
         void normalizeFieldOrder();
 
     private:
-        virtual bool do_compare(Type const& other, bool equality, RecursionStack& stack) const;
+        virtual bool do_compare(Type const& other, bool equality, ComparisonStack& stack) const;
         virtual Type* do_merge(Registry& registry, RecursionStack& stack) const;
         bool do_resize(Registry& registry, std::map<std::string, std::pair<size_t, size_t> >& new_sizes);
         FieldList m_fields;
@@ -451,7 +454,7 @@ namespace Typelib
         virtual Type const& merge(Registry& registry, RecursionStack& stack) const;
 
     protected:
-        virtual bool do_compare(Type const& other, bool equality, RecursionStack& stack) const;
+        virtual bool do_compare(Type const& other, bool equality, ComparisonStack& stack) const;
         virtual bool do_resize(Registry& registry, std::map<std::string, std::pair<size_t, size_t> >& new_sizes);
 
         /** Overloaded in subclasses to return the name of this type based on
@@ -481,7 +484,7 @@ namespace Typelib
         virtual std::string getIndirectTypeName(std::string const& inside_name) const;
 
     private:
-        virtual bool do_compare(Type const& other, bool equality, RecursionStack& stack) const;
+        virtual bool do_compare(Type const& other, bool equality, ComparisonStack& stack) const;
         virtual Type* do_merge(Registry& registry, RecursionStack& stack) const;
         virtual bool do_resize(Registry& into, std::map<std::string, std::pair<size_t, size_t> >& new_sizes);
         size_t m_dimension;
@@ -671,7 +674,7 @@ namespace Typelib
         static Container const& createContainer(Registry& r, std::string const& name, std::list<Type const*> const& on);
 
     protected:
-        virtual bool do_compare(Type const& other, bool equality, RecursionStack& stack) const;
+        virtual bool do_compare(Type const& other, bool equality, ComparisonStack& stack) const;
         virtual ContainerFactory getFactory() const = 0;
         Type* do_merge(Registry& registry, RecursionStack& stack) const;
 
-- 
2.43.0


From 5c9fa81c6140abc9019965d0a2b7dea28cd29ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:11 +0000
Subject: [PATCH 21/99] fix: canCastTo() accepted arrays and containers of
 different elements

The elements of arrays and containers must be the same, but two types that had
been found to be castable earlier during the same check were accepted.
---
 typelib/typemodel.cc | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/typelib/typemodel.cc b/typelib/typemodel.cc
index 93cb7af..6dfdd4f 100644
--- a/typelib/typemodel.cc
+++ b/typelib/typemodel.cc
@@ -548,7 +548,14 @@ namespace Typelib
             return false;
 
         Array const& array = static_cast<Array const&>(type);
-        return (m_dimension == array.m_dimension) && Indirect::do_compare(type, true, stack);
+        if (m_dimension != array.m_dimension)
+            return false;
+        // The elements must be the same even when checking for castability. The
+        // stack cannot be shared then, as types it contains might only be
+        // castable into each other
+        if (!equality)
+            return getIndirection().isSame(array.getIndirection());
+        return Indirect::do_compare(type, true, stack);
     }
     Type* Array::do_merge(Registry& registry, RecursionStack& stack) const
     {
@@ -619,7 +626,12 @@ namespace Typelib
             return false;
 
         Container const& container = static_cast<Container const&>(other);
-        return (getFactory() == container.getFactory()) && Indirect::do_compare(other, true, stack);
+        if (getFactory() != container.getFactory())
+            return false;
+        // See Array::do_compare
+        if (!equality)
+            return getIndirection().isSame(container.getIndirection());
+        return Indirect::do_compare(other, true, stack);
     }
 
     Type* Container::do_merge(Registry& registry, RecursionStack& stack) const
-- 
2.43.0


From 7accb2e1e3a86158fbf9ce7f466528ace00dc4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:11 +0000
Subject: [PATCH 22/99] fix: a null type was the same than any other type of
 the same name

---
 typelib/typemodel.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typelib/typemodel.hh b/typelib/typemodel.hh
index 2c84b7f..a93b21b 100644
--- a/typelib/typemodel.hh
+++ b/typelib/typemodel.hh
@@ -260,7 +260,7 @@ namespace Typelib
         NullType(std::string const& name) : Type(name, 0, Type::NullType ) {}
         virtual std::set<Type const*> dependsOn() const { return std::set<Type const*>(); }
         virtual bool do_compare(Type const& other, bool equality, ComparisonStack& stack) const
-        { return other.getName() == getName(); }
+        { return other.getCategory() == getCategory() && other.getName() == getName(); }
 
     private:
         virtual Type* do_merge(Registry& registry, RecursionStack& stack) const { return new NullType(*this); }
-- 
2.43.0


From 8e03a7df9c80bb10eaa6c4987e54d1450bed1385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:11 +0000
Subject: [PATCH 23/99] fix: Registry::isSame() compared all types with the
 first one of the other registry

and incremented its end iterator. Names were not compared either.
---
 typelib/registry.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/typelib/registry.cc b/typelib/registry.cc
index c5e1c8d..d795bda 100644
--- a/typelib/registry.cc
+++ b/typelib/registry.cc
@@ -571,9 +571,13 @@ namespace Typelib
 
         while (left_it != left_end)
         {
-            if (!left_it->second.type->isSame(*right_it->second.type))
+            Type const& left  = *left_it->second.type;
+            Type const& right = *right_it->second.type;
+            if (left_it->first != right_it->first || left.getName() != right.getName())
                 return false;
-            left_it++; left_end++;
+            if (!left.isSame(right))
+                return false;
+            ++left_it; ++right_it;
         }
         return true;
     }
-- 
2.43.0


From 4ca7bd7529abb76fe3b70e7eb672750c4b73fa74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:09 +0000
Subject: [PATCH 24/99] fix: resize() moved fields several times if the size
 changes compensate each other

---
 typelib/typemodel.cc | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/typelib/typemodel.cc b/typelib/typemodel.cc
index 6dfdd4f..612e411 100644
--- a/typelib/typemodel.cc
+++ b/typelib/typemodel.cc
@@ -413,6 +413,7 @@ namespace Typelib
     bool Compound::do_resize(Registry& registry, std::map<std::string, std::pair<size_t, size_t> >& new_sizes)
     {
         size_t global_offset = 0;
+        bool modified = false;
         for (FieldList::iterator it = m_fields.begin(); it != m_fields.end(); ++it)
         {
             it->setOffset(it->getOffset() + global_offset);
@@ -422,14 +423,14 @@ namespace Typelib
             {
                 size_t old_size = new_sizes.find(field_type.getName())->second.first;
                 global_offset += field_type.getSize() - old_size;
+                modified = true;
             }
         }
-        if (global_offset != 0)
-        {
-            setSize(getSize() + global_offset);
-            return true;
-        }
-        return false;
+        // This type must be marked as modified even if its size does not change
+        // in the end, or its fields would be moved again the next time it is
+        // visited
+        setSize(getSize() + global_offset);
+        return modified;
     }
 
     void Compound::mergeMetaData(Type const& other) const
-- 
2.43.0


From 931d808b959d91bbec39f94f94dd84c397085dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:09 +0000
Subject: [PATCH 25/99] fix: resize() recursed forever on recursive types

The size of pointers and containers does not depend on the size of what they
refer to: there is no need to resize it first.
---
 typelib/typemodel.cc | 8 +-------
 typelib/typemodel.hh | 1 -
 2 files changed, 1 insertion(+), 8 deletions(-)

diff --git a/typelib/typemodel.cc b/typelib/typemodel.cc
index 612e411..2cc8cc3 100644
--- a/typelib/typemodel.cc
+++ b/typelib/typemodel.cc
@@ -284,12 +284,6 @@ namespace Typelib
         }
     }
 
-    bool Indirect::do_resize(Registry& registry, std::map<std::string, std::pair<size_t, size_t> >& new_sizes)
-    {
-        bool result = Type::do_resize(registry, new_sizes);
-        return registry.get_(getIndirection()).resize(registry, new_sizes) || result;
-    }
-
     Compound::Compound(std::string const& name)
         : Type(name, 0, Type::Compound) {}
 
@@ -568,7 +562,7 @@ namespace Typelib
 
     bool Array::do_resize(Registry& registry, std::map<std::string, std::pair<size_t, size_t> >& new_sizes)
     {
-        if (!Indirect::do_resize(registry, new_sizes))
+        if (!registry.get_(getIndirection()).resize(registry, new_sizes))
             return false;
 
         setSize(getDimension() * getIndirection().getSize());
diff --git a/typelib/typemodel.hh b/typelib/typemodel.hh
index a93b21b..354f199 100644
--- a/typelib/typemodel.hh
+++ b/typelib/typemodel.hh
@@ -455,7 +455,6 @@ namespace Typelib
 
     protected:
         virtual bool do_compare(Type const& other, bool equality, ComparisonStack& stack) const;
-        virtual bool do_resize(Registry& registry, std::map<std::string, std::pair<size_t, size_t> >& new_sizes);
 
         /** Overloaded in subclasses to return the name of this type based on
          * the name of the indirection
-- 
2.43.0


From c8c545c41d069644f84a35574a6b0741efed8241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:09 +0000
Subject: [PATCH 26/99] fix: resize() dereferenced a null pointer when given an
 unknown type

---
 typelib/registry.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/typelib/registry.cc b/typelib/registry.cc
index d795bda..c132425 100644
--- a/typelib/registry.cc
+++ b/typelib/registry.cc
@@ -588,6 +588,13 @@ namespace Typelib
         // First, do a copy of new_sizes for our own use. Most importantly, we
         // resolve aliases
         SizeMap sizes;
+        for (std::map<std::string, size_t>::const_iterator it = new_sizes.begin();
+                it != new_sizes.end(); ++it)
+        {
+            if (!has(it->first, false))
+                throw Undefined(it->first);
+        }
+
         for (std::map<std::string, size_t>::const_iterator it = new_sizes.begin();
                 it != new_sizes.end(); ++it)
         {
-- 
2.43.0


From e176c348b97d95c15a97a3da6375cbf62093667e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:40 +0000
Subject: [PATCH 27/99] fix: computing the layout of a recursive type
 overflowed the stack

A compound that contains itself through a container cannot be described by
a layout. Refuse it as it is done for other unsupported types.
---
 typelib/memory_layout.cc | 9 +++++++++
 typelib/memory_layout.hh | 2 ++
 2 files changed, 11 insertions(+)

diff --git a/typelib/memory_layout.cc b/typelib/memory_layout.cc
index 10ddd5e..5553cf6 100644
--- a/typelib/memory_layout.cc
+++ b/typelib/memory_layout.cc
@@ -1,6 +1,7 @@
 #include "memory_layout.hh"
 #include <iostream>
 #include <boost/lexical_cast.hpp>
+#include <algorithm>
 using namespace Typelib;
 using namespace Typelib::MemLayout;
 using namespace std;
@@ -571,6 +572,7 @@ bool MemLayout::Visitor::visit_ (Array   const& type)
 {
     MemoryLayout subops;
     MemLayout::Visitor array_visitor(subops, accept_pointers, accept_opaques);
+    array_visitor.parents = parents;
     array_visitor.apply(type.getIndirection());
     ops.pushArray(type, subops);
     return true;
@@ -579,12 +581,18 @@ bool MemLayout::Visitor::visit_ (Container const& type)
 {
     MemoryLayout subops;
     MemLayout::Visitor container_visitor(subops, accept_pointers, accept_opaques);
+    container_visitor.parents = parents;
     container_visitor.apply(type.getIndirection());
     ops.pushContainer(type, subops);
     return true;
 }
 bool MemLayout::Visitor::visit_ (Compound const& type)
 {
+    // A compound can contain itself through a container
+    if (find(parents.begin(), parents.end(), &type) != parents.end())
+        throw NoLayout(type, "is recursive");
+    parents.push_back(&type);
+
     typedef Compound::FieldList Fields;
     Fields const& fields(type.getFields());
     Fields::const_iterator const end = fields.end();
@@ -597,6 +605,7 @@ bool MemLayout::Visitor::visit_ (Compound const& type)
         current_offset = it->getOffset() + it->getType().getSize();
     }
     ops.pushSkip(type.getSize() - current_offset);
+    parents.pop_back();
     return true;
 }
 bool MemLayout::Visitor::visit_ (Pointer const& type)
diff --git a/typelib/memory_layout.hh b/typelib/memory_layout.hh
index e5f733f..8c4a9b0 100644
--- a/typelib/memory_layout.hh
+++ b/typelib/memory_layout.hh
@@ -137,6 +137,8 @@ namespace Typelib
             MemoryLayout& ops;
             bool   accept_pointers;
             bool   accept_opaques;
+            //! The compounds that are being visited, outermost first
+            std::vector<Compound const*> parents;
 
         protected:
             bool visit_ (Numeric const& type);
-- 
2.43.0


From 2d29593eaf2c6a334fbbacef8932bfb92165b053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:01 +0000
Subject: [PATCH 28/99] fix: isValidTypename() accepted trailing garbage and
 misplaced brackets

A valid prefix followed by ',' or '>' was enough for the whole string to be
accepted at top level, '[' did not require a dimension nor a closing ']', ']'
was accepted without '[', and anything was accepted after '*'.
---
 typelib/typename.cc | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/typelib/typename.cc b/typelib/typename.cc
index e144435..fb61d9e 100644
--- a/typelib/typename.cc
+++ b/typelib/typename.cc
@@ -59,7 +59,8 @@ namespace Typelib
 
         size_t modifiers = s.find_first_of("*[");
         if (modifiers != string::npos)
-            return isValidIdentifier(string(s, pos, modifiers - pos));
+            return s.find_first_not_of('*', modifiers) == string::npos &&
+                isValidIdentifier(string(s, pos, modifiers - pos));
         else
             return isValidIdentifier(string(s, pos));
 
@@ -142,17 +143,11 @@ namespace Typelib
                 if (start_pos != i && !isValidTypeBasename(string(s, start_pos, i - start_pos), absolute, accept_integers))
                     return make_pair(false, i);
 
-                if (i + 1 == s.length())
-                    return make_pair(false, i);
-
                 start_pos = i + 1;
-            }
-            else if (s[i] == ']')
-            {
-                if (start_pos == i)
-                    return make_pair(false, start_pos);
-                if (string(s, start_pos, i - start_pos).find_first_not_of("0123456789") != string::npos)
+                size_t end = s.find_first_not_of("0123456789", start_pos);
+                if (end == string::npos || end == start_pos || s[end] != ']')
                     return make_pair(false, start_pos);
+                i = end;
 
                 while (i + 1 < s.length() && s[i + 1] == '*')
                     i++;
@@ -183,7 +178,8 @@ namespace Typelib
     {
         if (name.empty())
             return false;
-        return isValidTypename(name, 0, absolute, false).first;
+        pair<bool, int> result = isValidTypename(name, 0, absolute, false);
+        return result.first && result.second == (int)name.length();
     }
 
     bool isValidNamespace(const string& name, bool absolute)
-- 
2.43.0


From 65ea0fd3f4cd27cdaffc672386a3acf86f478f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:45 +0000
Subject: [PATCH 29/99] fix: getMinimalPathTo() returned ambiguous relative
 names

The relative name was only checked for being, as a whole, a substring of the
source namespace. From /A/D/B, /A/B/C/T was reported as reachable through B/C/,
whose first component is found in /A/D first.
---
 typelib/typename.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/typelib/typename.cc b/typelib/typename.cc
index fb61d9e..ee0506f 100644
--- a/typelib/typename.cc
+++ b/typelib/typename.cc
@@ -1,6 +1,8 @@
 #include "typename.hh"
 #include <boost/static_assert.hpp>
+#include <algorithm>
 #include <iostream>
+#include <iterator>
 
 using namespace std;
 using namespace boost;
@@ -270,8 +272,14 @@ namespace Typelib
         for (++remainder_it; remainder_it != tok1.end(); ++remainder_it)
             result += Typelib::NamespaceMarkString + *remainder_it;
 
-        while (!common_tokens.empty() && ns.find(result) != string::npos)
+        // A relative name is also ambiguous if its first component is the name
+        // of a namespace that is met first when looking it up from ns
+        list<string>::const_iterator const split_it = it1;
+        while (!common_tokens.empty() && (ns.find(result) != string::npos ||
+                    std::find(std::next(it1), std::next(split_it), *it1) != std::next(split_it) ||
+                    std::find(it2, list<string>::const_iterator(tok2.end()), *it1) != tok2.end()))
         {
+            --it1;
             result = common_tokens.back() + Typelib::NamespaceMarkString + result;
             common_tokens.pop_back();
         }
-- 
2.43.0


From cfee9491af813167a4fecacbad710bb5568943fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:57 +0000
Subject: [PATCH 30/99] fix: TLB documents were broken by special characters

Only < and > were escaped, and only in some of the attributes. Field names,
enum symbols, metadata keys, and names of numeric, null and enum types were
not, and a ]]> in a metadata value closed the CDATA section. Also, an empty
metadata value gave a null CDATA content to std::string.
---
 lang/tlb/export.cc | 48 ++++++++++++++++++++++++++++++----------------
 lang/tlb/import.cc | 14 +++++++++-----
 2 files changed, 41 insertions(+), 21 deletions(-)

diff --git a/lang/tlb/export.cc b/lang/tlb/export.cc
index 19e6185..b2d77a6 100644
--- a/lang/tlb/export.cc
+++ b/lang/tlb/export.cc
@@ -50,20 +50,36 @@ namespace
 
     std::string xmlEscape(std::string const& source)
     {
-        string result = source;
-        size_t pos = result.find_first_of("<>");
-        while (pos != string::npos)
+        string result;
+        for (string::const_iterator it = source.begin(); it != source.end(); ++it)
         {
-            if (result[pos] == '<')
-                result.replace(pos, 1, "&lt;");
-            else if (result[pos] == '>')
-                result.replace(pos, 1, "&gt;");
-            pos = result.find_first_of("<>");
+            switch (*it)
+            {
+                case '<':  result += "&lt;"; break;
+                case '>':  result += "&gt;"; break;
+                case '&':  result += "&amp;"; break;
+                case '"':  result += "&quot;"; break;
+                case '\n': result += "&#10;"; break;
+                case '\t': result += "&#9;"; break;
+                default:   result += *it;
+            }
         }
-
         return result;
     }
 
+    // Returns the given text as CDATA. "]]>" cannot appear within a CDATA
+    // section, it is split over two of them
+    std::string xmlCDATA(std::string const& source)
+    {
+        string result = source;
+        for (size_t pos = result.find("]]>"); pos != string::npos; pos = result.find("]]>", pos))
+        {
+            result.replace(pos, 3, "]]]]><![CDATA[>");
+            pos += 14;
+        }
+        return "<![CDATA[" + result + "]]>";
+    }
+
     std::string TlbExportVisitor::emitMetaData(Type const& type) const
     {
         return emitMetaData(type.getMetaData());
@@ -78,12 +94,12 @@ namespace
             MetaData::Values values = it->second;
             if (values.empty())
             {
-                stream << "<metadata key=\"" << key << "\" />";
+                stream << "<metadata key=\"" << xmlEscape(key) << "\" />";
             }
             else
             {
                 for (MetaData::Values::const_iterator it_value = values.begin(); it_value != values.end(); ++it_value)
-                    stream << "<metadata key=\"" << key << "\"><![CDATA[" << *it_value << "]]></metadata>\n";
+                    stream << "<metadata key=\"" << xmlEscape(key) << "\">" << xmlCDATA(*it_value) << "</metadata>\n";
             }
         }
         return stream.str();
@@ -121,7 +137,7 @@ namespace
     {
         m_stream
             << m_indent
-            << "<field name=\"" << field.getName() << "\""
+            << "<field name=\"" << xmlEscape(field.getName()) << "\""
             << " type=\""   << xmlEscape(field.getType().getName())  << "\""
             << " offset=\"" << field.getOffset() << "\">\n";
         m_stream << m_indent << emitMetaData(field.getMetaData()) << "\n";
@@ -150,7 +166,7 @@ namespace
     bool TlbExportVisitor::visit_(Numeric const& type)
     {
         m_stream
-            << "<numeric name=\"" << type.getName() << "\" "
+            << "<numeric name=\"" << xmlEscape(type.getName()) << "\" "
             << "category=\"" << getStringCategory(type.getNumericCategory()) << "\" "
             << "size=\"" << type.getSize() << "\" " << emitSourceID() << ">\n";
         m_stream << m_indent << emitMetaData(type) << "\n";
@@ -160,7 +176,7 @@ namespace
     }
     bool TlbExportVisitor::visit_ (NullType const& type)
     {
-        m_stream << "<null " << " name=\"" << type.getName() << "\" " << emitSourceID() << ">\n";
+        m_stream << "<null " << " name=\"" << xmlEscape(type.getName()) << "\" " << emitSourceID() << ">\n";
         m_stream << m_indent << emitMetaData(type) << "\n";
         m_stream << m_indent << "</null>";
         return true;
@@ -207,11 +223,11 @@ namespace
     bool TlbExportVisitor::visit_ (Enum const& type)
     {
         Enum::ValueMap const& values = type.values();
-        m_stream << "<enum name=\"" << type.getName() << "\" " << emitSourceID() << ">\n";
+        m_stream << "<enum name=\"" << xmlEscape(type.getName()) << "\" " << emitSourceID() << ">\n";
         { Indent indenter(m_indent);
             Enum::ValueMap::const_iterator it;
             for (it = values.begin(); it != values.end(); ++it)
-                m_stream << m_indent << "<value symbol=\"" << it->first << "\" value=\"" << it->second << "\"/>\n";
+                m_stream << m_indent << "<value symbol=\"" << xmlEscape(it->first) << "\" value=\"" << it->second << "\"/>\n";
         }
         m_stream << m_indent << emitMetaData(type) << "\n";
         m_stream << m_indent << "</enum>";
diff --git a/lang/tlb/import.cc b/lang/tlb/import.cc
index 9a6b46e..5835b27 100644
--- a/lang/tlb/import.cc
+++ b/lang/tlb/import.cc
@@ -69,18 +69,22 @@ namespace
             string key = getAttribute<string>(xml, "key");
             metadata.add(key, MetaData::Values());
 
-            // Look at a child CDATA block
+            // Look at the CDATA blocks of the child. A value that contains "]]>"
+            // is made of more than one.
+            bool has_value = false;
+            std::string value;
             xmlNodePtr cdata = xml->children;
             for(; cdata; cdata=cdata->next)
             {
                 if (cdata->type == XML_CDATA_SECTION_NODE)
                 {
-                    std::string value = reinterpret_cast<char const*>(cdata->content);
-                    metadata.add(key, value);
-                    break;
+                    has_value = true;
+                    if (cdata->content)
+                        value += reinterpret_cast<char const*>(cdata->content);
                 }
             }
-
+            if (has_value)
+                metadata.add(key, value);
         }
     }
 
-- 
2.43.0


From a988e7e8c0e12e271aabdfd733e9a6c3ea61ea04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:57 +0000
Subject: [PATCH 31/99] fix: the TLB importer dropped the source ID of
 containers

---
 lang/tlb/import.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lang/tlb/import.cc b/lang/tlb/import.cc
index 5835b27..50a7e89 100644
--- a/lang/tlb/import.cc
+++ b/lang/tlb/import.cc
@@ -225,6 +225,8 @@ namespace
             // allow a proper call to resize() later if needed.
             factory.getRegistry().get_(*container).setSize(size);
         }
+        if (!node.file.empty())
+            factory.getRegistry().setSourceID(*container, node.file);
         loadMetaData(node, container->getMetaData());
         return container;
     }
-- 
2.43.0


From b9bcf586009331ce79ac77b0f8a2417a56c5c26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:57 +0000
Subject: [PATCH 32/99] fix: the TLB importer refused the pointers and arrays
 that the exporter saves

They are saved if they have been explicitely added as persistent types.
---
 lang/tlb/import.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lang/tlb/import.cc b/lang/tlb/import.cc
index 50a7e89..0c82708 100644
--- a/lang/tlb/import.cc
+++ b/lang/tlb/import.cc
@@ -230,6 +230,12 @@ namespace
         loadMetaData(node, container->getMetaData());
         return container;
     }
+    Type const* load_derived(TypeNode const& node, Factory& factory)
+    {
+        // Pointers and arrays are completely defined by their name. What they
+        // are built from has been taken out of the set of remaining types
+        return factory.build(node.name);
+    }
     Type const* load_enum(TypeNode const& node, Factory& factory)
     {
         Enum* type = new Enum(node.name);
@@ -299,6 +305,8 @@ namespace
         { reinterpret_cast<const xmlChar*>("enum"),      load_enum },
         { reinterpret_cast<const xmlChar*>("compound"),  load_compound },
         { reinterpret_cast<const xmlChar*>("container"),  load_container },
+        { reinterpret_cast<const xmlChar*>("pointer"),   load_derived },
+        { reinterpret_cast<const xmlChar*>("array"),     load_derived },
         { 0, 0 }
     };
 
-- 
2.43.0


From a515d3997e6ff6dc90e7051b8c93cbda957139ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:20 +0000
Subject: [PATCH 33/99] fix: the TLB importer leaked the types it was building
 when a document was refused

---
 lang/tlb/import.cc | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/lang/tlb/import.cc b/lang/tlb/import.cc
index 0c82708..c51c8d3 100644
--- a/lang/tlb/import.cc
+++ b/lang/tlb/import.cc
@@ -8,6 +8,7 @@
 
 #include <iostream>
 #include <fstream>
+#include <memory>
 
 // Helpers
 namespace
@@ -104,10 +105,11 @@ namespace
 
         Registry& getRegistry() { return m_registry; }
 
-        void insert(TypeNode const& type, Type* object)
+        Type const* insert(TypeNode const& type, unique_ptr<Type> object)
         {
             loadMetaData(type, object->getMetaData());
-            m_registry.add(object, type.file);
+            m_registry.add(object.get(), type.file);
+            return object.release();
         }
 
         void alias (TypeNode const& type, string const& new_name)
@@ -186,22 +188,16 @@ namespace
             , reinterpret_cast<xmlChar const*>(getAttribute<string>(node.xml, "category").c_str()) );
         size_t      size = getAttribute<size_t>(node.xml, "size");
 
-        Type* type = new Numeric(node.name, size, category.type);
-        factory.insert(node, type);
-        return type;
+        return factory.insert(node, unique_ptr<Type>(new Numeric(node.name, size, category.type)));
     }
     Type const* load_null(TypeNode const& node, Factory& factory)
     {
-        Type* type = new NullType(node.name);
-        factory.insert(node, type);
-        return type;
+        return factory.insert(node, unique_ptr<Type>(new NullType(node.name)));
     }
     Type const* load_opaque(TypeNode const& node, Factory& factory)
     {
         size_t size = getAttribute<size_t>(node.xml, "size");
-        Type* type = new OpaqueType(node.name, size);
-        factory.insert(node, type);
-        return type;
+        return factory.insert(node, unique_ptr<Type>(new OpaqueType(node.name, size)));
     }
     Type const* load_container(TypeNode const& node, Factory& factory)
     {
@@ -238,7 +234,7 @@ namespace
     }
     Type const* load_enum(TypeNode const& node, Factory& factory)
     {
-        Enum* type = new Enum(node.name);
+        unique_ptr<Enum> type(new Enum(node.name));
         for(xmlNodePtr xml = xmlFirstElementChild(node.xml); xml; xml=xmlNextElementSibling(xml))
         {
             if (xmlStrcmp(xml->name, reinterpret_cast<const xmlChar*>("value")))
@@ -249,8 +245,7 @@ namespace
             type->add(symbol, value);
         }
 
-        factory.insert(node, type);
-        return type;
+        return factory.insert(node, std::move(type));
     }
     Type const* load_alias(TypeNode const& node, Factory& factory)
     {
@@ -263,7 +258,7 @@ namespace
 
     Type const* load_compound(TypeNode const& node, Factory& factory)
     {
-        Compound* compound = new Compound(node.name);
+        unique_ptr<Compound> compound(new Compound(node.name));
         size_t size = getAttribute<size_t>(node.xml, "size");
 
         for(xmlNodePtr xml = xmlFirstElementChild(node.xml); xml; xml=xmlNextElementSibling(xml))
@@ -283,8 +278,7 @@ namespace
 
         compound->normalizeFieldOrder();
         compound->setSize(size);
-        factory.insert(node, compound);
-        return compound;
+        return factory.insert(node, std::move(compound));
     }
 }
 
-- 
2.43.0


From 1c96bc1a4836c726d2119d4e7c26b3fa412c396e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:03 +0000
Subject: [PATCH 34/99] fix: the IDL exporter wrote invalid sequences of arrays

sequence<long[3]> is not IDL: containers of arrays are refused, as
multi-dimensional arrays are.
---
 lang/idl/export.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lang/idl/export.cc b/lang/idl/export.cc
index 859e4ba..c82ce50 100644
--- a/lang/idl/export.cc
+++ b/lang/idl/export.cc
@@ -178,6 +178,9 @@ namespace
         }
         else
         {
+            if (type.getIndirection().getCategory() == Type::Array)
+                throw UnsupportedType(type, "sequences of arrays are not supported in IDL");
+
             // Get the basename for "kind"
             m_namespace = getIDLBase(type.getIndirection()).first;
             // We generate all containers in orogen::Corba, even if their
-- 
2.43.0


From 8709bd9dc2a961d0cf3dfb1fcf30aba22659a418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:03 +0000
Subject: [PATCH 35/99] fix: the IDL exporter left out the type of integers of
 unusual sizes

---
 lang/idl/export.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lang/idl/export.cc b/lang/idl/export.cc
index c82ce50..d738ace 100644
--- a/lang/idl/export.cc
+++ b/lang/idl/export.cc
@@ -217,6 +217,8 @@ namespace
                 case 2: m_front += "short"; break;
                 case 4: m_front += "long"; break;
                 case 8: m_front += "long long"; break;
+                default:
+                    throw UnsupportedType(type, "IDL has no integer type of this size");
             }
         }
         else
-- 
2.43.0


From bd13fa224073e1364bc1bb3d92816580d063c497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:03 +0000
Subject: [PATCH 36/99] fix: IDL identifiers had the '*', '[', ']' and '-' of
 template arguments

---
 lang/idl/export.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lang/idl/export.cc b/lang/idl/export.cc
index d738ace..b61b4f5 100644
--- a/lang/idl/export.cc
+++ b/lang/idl/export.cc
@@ -50,7 +50,7 @@ namespace
     static string normalizeIDLName(std::string const& name) {
         unsigned int template_mark;
         string result = name;
-        while ((template_mark = result.find_first_of("<>/,")) < result.length()) {
+        while ((template_mark = result.find_first_of("<>/,*[]-")) < result.length()) {
             result.replace(template_mark, 1, "_");
         }
 
-- 
2.43.0


From d4a5e4a2164d9ed3c67627b180cc72f715622ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:03 +0000
Subject: [PATCH 37/99] fix: IDL declarations of enums and blobs had another
 name than the references to them

---
 lang/idl/export.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lang/idl/export.cc b/lang/idl/export.cc
index b61b4f5..b979af6 100644
--- a/lang/idl/export.cc
+++ b/lang/idl/export.cc
@@ -355,7 +355,7 @@ namespace
 
     bool IDLExportVisitor::visit_ (Enum const& type)
     {
-        m_stream << m_indent << "enum " << stripLeadingUnderscore(type.getBasename()) << " { ";
+        m_stream << m_indent << "enum " << normalizeIDLName(type.getBasename()) << " { ";
 
         list<string> symbols;
         Enum::ValueMap const& values = type.values();
@@ -601,7 +601,7 @@ bool IDLExport::save
             string indent_string = string(ns_size * 4, ' ');
 
             adaptNamespace(stream, target_namespace);
-            stream << indent_string << "typedef sequence<octet> " << type->getBasename() << ";\n";
+            stream << indent_string << "typedef sequence<octet> " << normalizeIDLName(type->getBasename()) << ";\n";
             return true;
         }
         else
-- 
2.43.0


From eb796dde03661c162e0fb66d98cbc2a081d156fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:03 +0000
Subject: [PATCH 38/99] fix: an IDL exporter kept the modules and typedefs of
 what it had exported before

---
 lang/idl/export.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lang/idl/export.cc b/lang/idl/export.cc
index b979af6..215bee1 100644
--- a/lang/idl/export.cc
+++ b/lang/idl/export.cc
@@ -488,6 +488,12 @@ void IDLExport::save
     m_opaque_as_any  = config.get<bool>("opaque_as_any", false);
     list<string> selection = config.get< list<string> >("selected");
     m_selected_types = set<string>(selection.begin(), selection.end());
+
+    // The exporter might have been used already
+    m_namespace = "/";
+    m_indent.clear();
+    m_typedefs.clear();
+    m_exported_typedefs.clear();
     return Exporter::save(stream, config, type);
 }
 
-- 
2.43.0


From bffa169af931a2b3a90fa5b20b5fb792ec5b4ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:45 +0000
Subject: [PATCH 39/99] fix: the singleton server was used after its deletion
 when the constructor or destructor of a singleton uses others

---
 typelib/utilmm/singleton/server.cc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/typelib/utilmm/singleton/server.cc b/typelib/utilmm/singleton/server.cc
index 5f37eb2..b392662 100644
--- a/typelib/utilmm/singleton/server.cc
+++ b/typelib/utilmm/singleton/server.cc
@@ -27,10 +27,16 @@ server::~server() {
 // modifiers
 void server::attach(std::string const &name, details::dummy_factory const& factory) {
   single_map::iterator it = singletons.find(name);
-  if (it == singletons.end())
-    it = singletons.insert( single_map::value_type(name, factory.create()) ).first;
+  if (it != singletons.end()) {
+    it->second->incr_ref();
+    return;
+  }
 
-  it->second->incr_ref();
+  // The constructor of the singleton may use other ones. If they are the only
+  // ones, this server does not exist anymore once they are released.
+  dummy *created = factory.create();
+  created->incr_ref();
+  instance().singletons.insert( single_map::value_type(name, created) );
 }
 
 bool server::detach(std::string const &name) {
@@ -41,7 +47,9 @@ bool server::detach(std::string const &name) {
 
     singletons.erase(i);
     delete to_del;
-    return singletons.empty();
+    // The destructor of the singleton may use other ones, in which case
+    // this server does not exist anymore.
+    return the_instance && the_instance->singletons.empty();
   }
   return false;
 }
-- 
2.43.0


From f63d0eb3a51f0ee143b8ff89bc2648eeb9372dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:45 +0000
Subject: [PATCH 40/99] fix: a directory of TYPELIB_PLUGIN_PATH that does not
 exist, or a final colon, threw out of PluginManager

---
 typelib/pluginmanager.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/typelib/pluginmanager.cc b/typelib/pluginmanager.cc
index 2172e00..7c1618c 100644
--- a/typelib/pluginmanager.cc
+++ b/typelib/pluginmanager.cc
@@ -46,7 +46,7 @@ PluginManager::PluginManager()
         // make a copy of the env-var, which we can modify
         std::string s(pluginPath);
         // we need ":" at the end, to catch the last entry in the list
-        if (s.find_last_of(delim) != s.length())
+        if (s.empty() || *s.rbegin() != ':')
             s += ":";
         // pos of delim for initial loop
         size_t pos = s.find(delim);
@@ -94,7 +94,8 @@ bool PluginManager::loadPluginFromDirectory(std::string const& directory)
     bool success = false;
 
     directory_iterator end_it;
-    for (directory_iterator it(plugin_dir); it != end_it; ++it)
+    boost::system::error_code error; // then there is nothing to iterate on
+    for (directory_iterator it(plugin_dir, error); it != end_it; ++it)
     {
         if (it->path().extension() == ".so" || it->path().extension() == ".dylib")
 #if BOOST_VERSION >= 104600
-- 
2.43.0


From f8ae8097ad665e8b0b33c58edfcf0ff3f9abe5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:01 +0000
Subject: [PATCH 41/99] fix: containers were looked up while another thread
 could be loading the plugins that add them

---
 typelib/typemodel.cc | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/typelib/typemodel.cc b/typelib/typemodel.cc
index 2cc8cc3..d4bd1e0 100644
--- a/typelib/typemodel.cc
+++ b/typelib/typemodel.cc
@@ -14,8 +14,14 @@ using namespace std;
 
 #include <iostream>
 #include <boost/lexical_cast.hpp>
+#include <boost/thread/mutex.hpp>
 using boost::lexical_cast;
 
+/** Protects the list of containers, to which the plugins are added when they
+ * are loaded, that is by any thread that creates a registry
+ */
+static boost::mutex s_available_containers_mtx;
+
 namespace Typelib
 {
     Type::Type(std::string const& name, size_t size, Category category)
@@ -599,6 +605,7 @@ namespace Typelib
 
     void Container::registerContainer(std::string const& name, ContainerFactory factory)
     {
+        boost::mutex::scoped_lock lock(s_available_containers_mtx);
         s_available_containers[name] = factory;
     }
     Container const& Container::createContainer(Registry& r, std::string const& name, Type const& on)
@@ -609,10 +616,15 @@ namespace Typelib
     }
     Container const& Container::createContainer(Registry& r, std::string const& name, std::list<Type const*> const& on)
     {
-        AvailableContainers::const_iterator it = s_available_containers.find(name);
-        if (it == s_available_containers.end())
-            throw UnknownContainer(name);
-        return (*it->second)(r, on);
+        ContainerFactory factory;
+        {
+            boost::mutex::scoped_lock lock(s_available_containers_mtx);
+            AvailableContainers::const_iterator it = s_available_containers.find(name);
+            if (it == s_available_containers.end())
+                throw UnknownContainer(name);
+            factory = it->second;
+        }
+        return (*factory)(r, on);
     }
 
     bool Container::do_compare(Type const& other, bool equality, ComparisonStack& stack) const
-- 
2.43.0


From 37c8e78f8083cc8e82c6951a0666b54c2e7e0578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:39 +0000
Subject: [PATCH 42/99] fix: uint32_t values above 2^31-1 were read as negative
 numbers in Ruby

---
 bindings/ruby/ext/convert.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/ruby/ext/convert.cc b/bindings/ruby/ext/convert.cc
index 44645de..8e31210 100644
--- a/bindings/ruby/ext/convert.cc
+++ b/bindings/ruby/ext/convert.cc
@@ -18,7 +18,7 @@ bool RubyGetter::visit_ (uint8_t & value) { m_value = INT2FIX(value); return fal
 bool RubyGetter::visit_ (int16_t & value) { m_value = INT2FIX(value); return false; }
 bool RubyGetter::visit_ (uint16_t& value) { m_value = INT2FIX(value); return false; }
 bool RubyGetter::visit_ (int32_t & value) { m_value = INT2NUM(value); return false; }
-bool RubyGetter::visit_ (uint32_t& value) { m_value = INT2NUM(value); return false; }
+bool RubyGetter::visit_ (uint32_t& value) { m_value = UINT2NUM(value); return false; }
 bool RubyGetter::visit_ (int64_t & value) { m_value = LL2NUM(value);  return false; }
 bool RubyGetter::visit_ (uint64_t& value) { m_value = ULL2NUM(value); return false; }
 bool RubyGetter::visit_ (float   & value) { m_value = rb_float_new(value); return false; }
-- 
2.43.0


From 419062d91d0042d64284bd0736fa57487910fc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:39 +0000
Subject: [PATCH 43/99] fix: uint64_t values above 2^63-1 could not be set from
 Ruby

---
 bindings/ruby/ext/convert.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/ruby/ext/convert.cc b/bindings/ruby/ext/convert.cc
index 8e31210..2386fa0 100644
--- a/bindings/ruby/ext/convert.cc
+++ b/bindings/ruby/ext/convert.cc
@@ -90,7 +90,7 @@ bool RubySetter::visit_ (uint16_t& value) { value = NUM2UINT(m_value); return fa
 bool RubySetter::visit_ (int32_t & value) { value = NUM2INT(m_value); return false; }
 bool RubySetter::visit_ (uint32_t& value) { value = NUM2UINT(m_value); return false; }
 bool RubySetter::visit_ (int64_t & value) { value = NUM2LL(m_value);  return false; }
-bool RubySetter::visit_ (uint64_t& value) { value = NUM2LL(m_value); return false; }
+bool RubySetter::visit_ (uint64_t& value) { value = NUM2ULL(m_value); return false; }
 bool RubySetter::visit_ (float   & value) { value = NUM2DBL(m_value); return false; }
 bool RubySetter::visit_ (double  & value) { value = NUM2DBL(m_value); return false; }
 
-- 
2.43.0


From 85bd99289c43cf0de462a081f61502243dc3d4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:39 +0000
Subject: [PATCH 44/99] fix: Ruby strings with multibyte characters were
 truncated when converted to /std/string

---
 bindings/ruby/lib/typelib/standard_convertions.rb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/typelib/standard_convertions.rb b/bindings/ruby/lib/typelib/standard_convertions.rb
index fb3e3fb..4b26d59 100644
--- a/bindings/ruby/lib/typelib/standard_convertions.rb
+++ b/bindings/ruby/lib/typelib/standard_convertions.rb
@@ -26,7 +26,7 @@ module Typelib
     end
 
     convert_from_ruby String, '/std/string' do |value, typelib_type|
-        typelib_type.wrap([value.length, value].pack("QA#{value.length}"))
+        typelib_type.wrap([value.bytesize, value].pack("Qa#{value.bytesize}"))
     end
     convert_to_ruby '/std/string', String do |value|
         value = value.to_byte_array[8..-1]
-- 
2.43.0


From 7bbbf3ee5c5f2b6cdf29e2c90cf0fde2a0416f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:56 +0000
Subject: [PATCH 45/99] fix: setting an element of a container left the values
 already accessed inside it pointing to freed memory

---
 bindings/ruby/lib/typelib/container_type.rb | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/typelib/container_type.rb b/bindings/ruby/lib/typelib/container_type.rb
index 4a57431..88f2512 100644
--- a/bindings/ruby/lib/typelib/container_type.rb
+++ b/bindings/ruby/lib/typelib/container_type.rb
@@ -145,7 +145,13 @@ module Typelib
                     raise ArgumentError, "index out of bounds"
                 end
 
-                do_set(index, value)
+                # The assignment may reallocate the containers that are part of
+                # the element
+                if element = raw_get_cached(index)
+                    element.handle_invalidation { do_set(index, value) }
+                else
+                    do_set(index, value)
+                end
             end
 
             def set(index, value)
-- 
2.43.0


From d02838994c58dc7a1db879938de3193123026ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:56 +0000
Subject: [PATCH 46/99] fix: a negative index gave another element of an array,
 depending on which had been accessed before

---
 bindings/ruby/lib/typelib/array_type.rb | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bindings/ruby/lib/typelib/array_type.rb b/bindings/ruby/lib/typelib/array_type.rb
index aee8b12..7bc7ae0 100644
--- a/bindings/ruby/lib/typelib/array_type.rb
+++ b/bindings/ruby/lib/typelib/array_type.rb
@@ -152,6 +152,9 @@ module Typelib
         end
 
         def raw_get(index)
+            if index < 0
+                raise ArgumentError, "index out of bounds (#{index} < 0)"
+            end
             @elements[index] ||= do_get(index)
         end
 
-- 
2.43.0


From 9922561457b60a2a8ef3867e031335e1c15d8a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:28 +0000
Subject: [PATCH 47/99] fix: containers whose own elements are appended to them
 read memory released by the first insertion

---
 bindings/ruby/lib/typelib/container_type.rb | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/bindings/ruby/lib/typelib/container_type.rb b/bindings/ruby/lib/typelib/container_type.rb
index 88f2512..3de0fde 100644
--- a/bindings/ruby/lib/typelib/container_type.rb
+++ b/bindings/ruby/lib/typelib/container_type.rb
@@ -310,13 +310,29 @@ module Typelib
             # the elements require a convertion to ruby -- we convert the whole
             # container to Array
             allocating_operation do
-                for v in array
-                    do_push(__element_from_ruby(v))
+                # The values that are part of this container move or disappear
+                # as soon as it grows
+                values = array.map do |v|
+                    v = __element_from_ruby(v)
+                    part_of_self?(v) ? v.dup : v
+                end
+                for v in values
+                    do_push(v)
                 end
             end
             self
         end
 
+        # Whether a value is stored within this container
+        def part_of_self?(value)
+            while value.kind_of?(Typelib::Type)
+                value = value.__typelib_parent
+                return true if equal?(value)
+            end
+            false
+        end
+        private :part_of_self?
+
         def raw_each_cached(&block)
             @elements.compact.each(&block)
         end
-- 
2.43.0


From 5c531eaaf3331569655c474bdd753104538812e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:12 +0000
Subject: [PATCH 48/99] fix: comparing, zeroing, swapping or exporting an
 invalidated value crashed the interpreter

---
 bindings/ruby/ext/value.cc        | 2 ++
 bindings/ruby/lib/typelib.rb      | 4 ++++
 bindings/ruby/lib/typelib/type.rb | 5 +++++
 3 files changed, 11 insertions(+)

diff --git a/bindings/ruby/ext/value.cc b/bindings/ruby/ext/value.cc
index ec6f331..f914de1 100644
--- a/bindings/ruby/ext/value.cc
+++ b/bindings/ruby/ext/value.cc
@@ -604,6 +604,8 @@ VALUE value_memory_eql_p(VALUE rbself, VALUE rbwith)
     Value& self = rb2cxx::object<Value>(rbself);
     Value& with = rb2cxx::object<Value>(rbwith);
 
+    if (!with.getData())
+        rb_raise(rb_eTypeError, "invalidated object");
     if (self.getData() == with.getData())
         return Qtrue;
 
diff --git a/bindings/ruby/lib/typelib.rb b/bindings/ruby/lib/typelib.rb
index 780349c..1bb8947 100644
--- a/bindings/ruby/lib/typelib.rb
+++ b/bindings/ruby/lib/typelib.rb
@@ -260,6 +260,10 @@ module Typelib
     end
 
     def self.compare(a, b)
+        if a.invalidated? || b.invalidated?
+            raise TypeError, "cannot compare invalidated values"
+        end
+
         if a.respond_to?(:apply_changes_from_converted_types)
             a.apply_changes_from_converted_types
         end
diff --git a/bindings/ruby/lib/typelib/type.rb b/bindings/ruby/lib/typelib/type.rb
index 48fe5ac..983422e 100644
--- a/bindings/ruby/lib/typelib/type.rb
+++ b/bindings/ruby/lib/typelib/type.rb
@@ -283,6 +283,11 @@ module Typelib
             def to_ruby; raise TypeError, "invalidated object" end
             def to_byte_array; raise TypeError, "invalidated object" end
             def marshalling_size; raise TypeError, "invalidated object" end
+            def zero!; raise TypeError, "invalidated object" end
+            def endian_swap; raise TypeError, "invalidated object" end
+            def endian_swap!; raise TypeError, "invalidated object" end
+            def memory_eql?(other); raise TypeError, "invalidated object" end
+            def to_csv(*args); raise TypeError, "invalidated object" end
         end
 
         # Call to freeze the object, i.e. to make it readonly
-- 
2.43.0


From a7ff584203169c0e13ee6eade71c9de65305a20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:47 +0000
Subject: [PATCH 49/99] fix: values accessed in the block of
 ContainerType#delete_if pointed to moved or freed memory afterwards

---
 bindings/ruby/lib/typelib/container_type.rb | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/bindings/ruby/lib/typelib/container_type.rb b/bindings/ruby/lib/typelib/container_type.rb
index 3de0fde..b5b66e6 100644
--- a/bindings/ruby/lib/typelib/container_type.rb
+++ b/bindings/ruby/lib/typelib/container_type.rb
@@ -378,10 +378,13 @@ module Typelib
             # NOTE: no need to care about convertions to ruby here, as -- when
             # the elements require a convertion to ruby -- we convert the whole
             # container to Array
+            #
+            # The block may keep the elements or access what is inside them,
+            # which removing elements moves. Decide first, on the elements
+            # whose invalidation is handled.
+            delete = raw_each.map { |el| yield(__element_to_ruby(el)) }
             handle_invalidation do
-                do_delete_if do |el|
-                    yield(__element_to_ruby(el))
-                end
+                do_delete_if { delete.shift }
             end
         end
 
-- 
2.43.0


From f3fcef1d08b4f6ec6fc366db47b6d5f3d0a6d09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:47 +0000
Subject: [PATCH 50/99] fix: zero! left the elements accessed in containers
 pointing to freed memory

---
 bindings/ruby/ext/value.cc        | 2 +-
 bindings/ruby/lib/typelib/type.rb | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/bindings/ruby/ext/value.cc b/bindings/ruby/ext/value.cc
index f914de1..78b778a 100644
--- a/bindings/ruby/ext/value.cc
+++ b/bindings/ruby/ext/value.cc
@@ -711,7 +711,7 @@ void typelib_ruby::Typelib_init_values()
     rb_define_singleton_method(cType, "from_address", RUBY_METHOD_FUNC(&value_from_address), 1);
 
     rb_define_method(cType, "do_from_buffer", RUBY_METHOD_FUNC(&value_do_from_buffer), 5);
-    rb_define_method(cType, "zero!",      RUBY_METHOD_FUNC(&value_zero), 0);
+    rb_define_method(cType, "do_zero",      RUBY_METHOD_FUNC(&value_zero), 0);
     rb_define_method(cType, "memory_eql?",      RUBY_METHOD_FUNC(&value_memory_eql_p), 1);
     rb_define_method(cType, "endian_swap",      RUBY_METHOD_FUNC(&value_endian_swap), 0);
     rb_define_method(cType, "endian_swap!",      RUBY_METHOD_FUNC(&value_endian_swap_b), 0);
diff --git a/bindings/ruby/lib/typelib/type.rb b/bindings/ruby/lib/typelib/type.rb
index 983422e..f6e5558 100644
--- a/bindings/ruby/lib/typelib/type.rb
+++ b/bindings/ruby/lib/typelib/type.rb
@@ -659,6 +659,13 @@ module Typelib
             end
         end
 
+        # Reinitializes this value to zero
+        def zero!
+            invalidate_changes_from_converted_types
+            handle_invalidation { do_zero }
+            self
+        end
+
         # Reinitializes this value to match marshalled data
         #
         # @param [String] string the buffer with marshalled data
-- 
2.43.0


From 59860c6a178c270dd36e52385bc004493cf4da8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:47 +0000
Subject: [PATCH 51/99] fix: fields accessed with symbols were not invalidated
 when their memory was freed

---
 bindings/ruby/lib/typelib/compound_type.rb | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/typelib/compound_type.rb b/bindings/ruby/lib/typelib/compound_type.rb
index 647eca9..36eba73 100644
--- a/bindings/ruby/lib/typelib/compound_type.rb
+++ b/bindings/ruby/lib/typelib/compound_type.rb
@@ -445,10 +445,11 @@ module Typelib
 
 
         def get(name)
+            name = name.to_s
             if @fields[name]
                 Typelib.to_ruby(@fields[name], @field_types[name])
             else
-                value = typelib_get_field(name.to_s, false)
+                value = typelib_get_field(name, false)
                 if value.kind_of?(Typelib::Type)
                     @fields[name] = value
                     Typelib.to_ruby(value, @field_types[name])
@@ -458,6 +459,7 @@ module Typelib
         end
 
         def raw_get(name)
+            name = name.to_s
             @fields[name] ||= typelib_get_field(name, true)
         end
 
-- 
2.43.0


From c0837ae681199ab63f382062f6cc2c17e6acd870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:03 +0000
Subject: [PATCH 52/99] fix: memory zones that the GC had found dead could be
 given out again, which crashed the interpreter

---
 bindings/ruby/ext/memory.cc | 60 ++++++++++++-------------------------
 1 file changed, 19 insertions(+), 41 deletions(-)

diff --git a/bindings/ruby/ext/memory.cc b/bindings/ruby/ext/memory.cc
index 1bed435..eb95014 100644
--- a/bindings/ruby/ext/memory.cc
+++ b/bindings/ruby/ext/memory.cc
@@ -45,15 +45,17 @@ static struct st_hash_type memory_table_type = {
 
 struct MemoryTableEntry
 {
+    // Count of the MemoryZone objects for this address, plus the entries whose
+    // root it is. The objects themselves are not stored: one that the GC has
+    // marked as dead must not be given out again
     int refcount;
-    VALUE object;
     bool owned;
     void* root_ptr;
-    MemoryTableEntry(VALUE object, bool owned, void* root_ptr = 0)
-        : refcount(1), object(object), owned(owned), root_ptr(root_ptr)
+    MemoryTableEntry(bool owned, void* root_ptr = 0)
+        : refcount(1), owned(owned), root_ptr(root_ptr)
     {
         if (root_ptr && owned)
-            rb_raise(rb_eArgError, "given both a root pointer and owned=true for object %llu", NUM2ULL(rb_obj_id(object)));
+            rb_raise(rb_eArgError, "given both a root pointer and owned=true");
     }
 };
 
@@ -181,31 +183,15 @@ typelib_ruby::memory_delete(void *ptr)
     ruby_xfree(ptr);
 }
 
-static VALUE
-memory_aref(void *ptr)
-{
-    MemoryTableEntry* entry;
-    if (!st_lookup(MemoryTable, (st_data_t)ptr, (st_data_t*)&entry)) {
-        return Qnil;
-    }
-    if ((VALUE)entry == Qundef)
-        rb_bug("found undef in memory table");
-
-    return entry->object;
-}
-
 static void
-memory_aset(void *ptr, VALUE obj, bool owned, void* root_ptr)
+memory_aset(void *ptr, bool owned, void* root_ptr)
 {
-    if (! NIL_P(memory_aref(ptr)))
-        rb_raise(rb_eArgError, "there is already a wrapper for %p", ptr);
-
-    if (ptr == root_ptr)
-        rb_raise(rb_eArgError, "pointer and root pointer are equal");
-
     if (!memory_ref(ptr))
     {
-        MemoryTableEntry* entry = new MemoryTableEntry(obj, owned, root_ptr);
+        if (ptr == root_ptr)
+            rb_raise(rb_eArgError, "pointer and root pointer are equal");
+
+        MemoryTableEntry* entry = new MemoryTableEntry(owned, root_ptr);
         st_insert(MemoryTable, (st_data_t)ptr, (st_data_t)entry);
 
         if (root_ptr)
@@ -267,23 +253,15 @@ typelib_ruby::memory_init(VALUE ptr, VALUE type)
 VALUE
 typelib_ruby::memory_wrap(void* ptr, bool take_ownership, void* root_ptr)
 {
-    VALUE zone = memory_aref(ptr);
-    if (NIL_P(zone))
-    {
-#       ifdef VERBOSE
-        fprintf(stderr, "%p: wrapping new memory zone\n", ptr);
-#       endif
-
-        zone = Data_Wrap_Struct(cMemoryZone, 0, &memory_zone_unref, new MemoryZone(ptr));
-        memory_aset(ptr, zone, take_ownership, root_ptr);
-    }
-    else
-    {
-#       ifdef VERBOSE
-        fprintf(stderr, "%p: already known memory zone\n", ptr);
-#       endif
-    }
+#   ifdef VERBOSE
+    fprintf(stderr, "%p: wrapping memory zone\n", ptr);
+#   endif
 
+    // Allocate the object first, as doing so can run the GC
+    MemoryZone* cptr = new MemoryZone(0);
+    VALUE zone = Data_Wrap_Struct(cMemoryZone, 0, &memory_zone_unref, cptr);
+    memory_aset(ptr, take_ownership, root_ptr);
+    cptr->ptr = ptr;
     return zone;
 }
 
-- 
2.43.0


From aad5a5ee5483413d2f8691c8fa2fe737b0dd7dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:41 +0000
Subject: [PATCH 53/99] fix: CXXRegistry objects could not be created with Ruby
 3

---
 bindings/ruby/lib/typelib.rb | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/typelib.rb b/bindings/ruby/lib/typelib.rb
index 1bb8947..7be00f7 100644
--- a/bindings/ruby/lib/typelib.rb
+++ b/bindings/ruby/lib/typelib.rb
@@ -201,9 +201,11 @@ require 'typelib/metadata'
 
 require 'typelib/registry'
 require 'typelib/registry_export'
-require 'typelib/cxx_registry'
 require 'typelib/specializations'
 require 'typelib_ruby'
+# Needs Registry to be fully defined, as subclasses inherit the way they are
+# allocated when they are created
+require 'typelib/cxx_registry'
 
 Typelib::Type.instance_variable_set :@metadata, Typelib::MetaData.new
 Typelib::IndirectType.instance_variable_set :@metadata, Typelib::MetaData.new
-- 
2.43.0


From a1fd18e8233a7645fac3bc003b886bdb8d4d5d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:55 +0000
Subject: [PATCH 54/99] fix: marshalling, swapping, copying or zeroing a value
 whose type does not support it aborted the Ruby interpreter

---
 bindings/ruby/ext/value.cc | 68 +++++++++++++++++++++++---------------
 1 file changed, 42 insertions(+), 26 deletions(-)

diff --git a/bindings/ruby/ext/value.cc b/bindings/ruby/ext/value.cc
index 78b778a..ff347bb 100644
--- a/bindings/ruby/ext/value.cc
+++ b/bindings/ruby/ext/value.cc
@@ -48,6 +48,20 @@ void* value_root_ptr(VALUE value)
  *   same DLPtr object, or DL will override the free function of the other
  *   DLPtr object -- which is obviously wrong, but nevertheless done.
  */
+/* Calls f, raising ArgumentError instead of the C++ exceptions it throws. What
+ * has to be destroyed must be local to f: raising does not destroy the caller's
+ * objects
+ */
+template<typename F>
+static void raising_call(F f)
+{
+    VALUE error = Qnil;
+    try { f(); return; }
+    catch(std::exception const& e)
+    { error = rb_exc_new2(rb_eArgError, e.what()); }
+    rb_exc_raise(error);
+}
+
 VALUE cxx2rb::value_wrap(Value v, VALUE registry, VALUE parent)
 {
     VALUE type = type_wrap(v.getType(), registry);
@@ -465,14 +479,13 @@ VALUE value_do_from_buffer(VALUE rbself, VALUE string, VALUE pointers, VALUE opa
 {
     Value value  = rb2cxx::object<Value>(rbself);
 
-    MemoryLayout layout = Typelib::layout_of(value.getType(),
-            RTEST(pointers), RTEST(opaques), RTEST(merge), RTEST(remove_trailing_skips));
-
     char* ruby_buffer = StringValuePtr(string);
-    vector<uint8_t> cxx_buffer(ruby_buffer, ruby_buffer + RSTRING_LEN(string));
-    try { Typelib::load(value, cxx_buffer, layout); }
-    catch(std::exception const& e)
-    { rb_raise(rb_eArgError, "%s", e.what()); }
+    raising_call([&] {
+        MemoryLayout layout = Typelib::layout_of(value.getType(),
+                RTEST(pointers), RTEST(opaques), RTEST(merge), RTEST(remove_trailing_skips));
+        vector<uint8_t> cxx_buffer(ruby_buffer, ruby_buffer + RSTRING_LEN(string));
+        Typelib::load(value, cxx_buffer, layout);
+    });
     return rbself;
 }
 
@@ -516,12 +529,14 @@ static
 VALUE value_endian_swap(VALUE self)
 {
     Value& value = rb2cxx::object<Value>(self);
-    CompileEndianSwapVisitor compiled;
-    compiled.apply(value.getType());
-
     VALUE registry = value_get_registry(self);
-    VALUE result   = value_allocate(value.getType(), registry);
-    compiled.swap(value, rb2cxx::object<Value>(result));
+    VALUE result   = Qnil;
+    raising_call([&] {
+        CompileEndianSwapVisitor compiled;
+        compiled.apply(value.getType());
+        result = value_allocate(value.getType(), registry);
+        compiled.swap(value, rb2cxx::object<Value>(result));
+    });
     return result;
 }
 
@@ -536,7 +551,7 @@ static
 VALUE value_endian_swap_b(VALUE self, VALUE rb_compile)
 {
     Value& value = rb2cxx::object<Value>(self);
-    endian_swap(value);
+    raising_call([&] { endian_swap(value); });
     return self;
 }
 
@@ -577,11 +592,15 @@ static
 VALUE value_do_byte_array(VALUE self, VALUE pointers, VALUE opaques, VALUE merge, VALUE remove_trailing_skips)
 {
     Value& value = rb2cxx::object<Value>(self);
-    MemoryLayout layout = Typelib::layout_of(value.getType(), RTEST(pointers), RTEST(opaques), RTEST(merge), RTEST(remove_trailing_skips));
-
-    vector<uint8_t> buffer;
-    Typelib::dump(value, buffer, layout);
-    return rb_str_new(reinterpret_cast<char*>(&buffer[0]), buffer.size());
+    VALUE result = Qnil;
+    raising_call([&] {
+        MemoryLayout layout = Typelib::layout_of(value.getType(), RTEST(pointers), RTEST(opaques), RTEST(merge), RTEST(remove_trailing_skips));
+
+        vector<uint8_t> buffer;
+        Typelib::dump(value, buffer, layout);
+        result = rb_str_new(reinterpret_cast<char*>(&buffer[0]), buffer.size());
+    });
+    return result;
 }
 
 /* call-seq:
@@ -646,7 +665,7 @@ static VALUE value_to_csv(int argc, VALUE* argv, VALUE self)
 static VALUE value_zero(VALUE self)
 {
     Value const& value(rb2cxx::object<Value>(self));
-    Typelib::zero(value);
+    raising_call([&] { Typelib::zero(value); });
     return self;
 }
 
@@ -661,7 +680,7 @@ static VALUE typelib_do_copy(VALUE, VALUE to, VALUE from)
         if (!v_from.getType().canCastTo(v_to.getType()))
             rb_raise(rb_eArgError, "cannot copy: types are not compatible");
     }
-    Typelib::copy(v_to.getData(), v_from.getData(), v_from.getType());
+    raising_call([&] { Typelib::copy(v_to.getData(), v_from.getData(), v_from.getType()); });
     return to;
 }
 
@@ -684,12 +703,9 @@ static VALUE typelib_compare(VALUE, VALUE to, VALUE from)
                     v_from.getType().getName().c_str(),
                     v_to.getType().getName().c_str());
     }
-    try {
-        bool result = Typelib::compare(v_to.getData(), v_from.getData(), v_from.getType());
-        return result ? Qtrue : Qfalse;
-    } catch(std::exception const& e) {
-        rb_raise(rb_eArgError, "%s", e.what());
-    }
+    bool result = false;
+    raising_call([&] { result = Typelib::compare(v_to.getData(), v_from.getData(), v_from.getType()); });
+    return result ? Qtrue : Qfalse;
 }
 
 
-- 
2.43.0


From 81fc039e88f4b43a0bddd5bd88ad78d0ac83894c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:51 +0000
Subject: [PATCH 55/99] fix: ContainerType.of_size failed with elements that
 end with padding

---
 bindings/ruby/lib/typelib/container_type.rb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/typelib/container_type.rb b/bindings/ruby/lib/typelib/container_type.rb
index b5b66e6..acc439c 100644
--- a/bindings/ruby/lib/typelib/container_type.rb
+++ b/bindings/ruby/lib/typelib/container_type.rb
@@ -254,7 +254,7 @@ module Typelib
 
         # Create a new container with the given size and element
         def self.of_size(size, element = deference.new)
-            element = Typelib.from_ruby(element, deference).to_byte_array
+            element = Typelib.from_ruby(element, deference).to_byte_array(remove_trailing_skips: false)
             from_buffer([size].pack("Q") + element * size)
         end
 
-- 
2.43.0


From 0ea8bad3b827e6729855a28dcd5f4c9da7d44b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:50 +0000
Subject: [PATCH 56/99] fix: values of types removed from their Ruby registry
 were destroyed using deleted types

---
 bindings/ruby/ext/registry.cc | 12 ++----------
 bindings/ruby/ext/typelib.hh  | 21 +++++++++++++++++++--
 2 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/bindings/ruby/ext/registry.cc b/bindings/ruby/ext/registry.cc
index 5c3b167..8f0a667 100644
--- a/bindings/ruby/ext/registry.cc
+++ b/bindings/ruby/ext/registry.cc
@@ -30,16 +30,7 @@ namespace typelib_ruby {
 static
 void registry_free(void* ptr)
 {
-    using cxx2rb::WrapperMap;
-    RbRegistry* rbregistry = reinterpret_cast<RbRegistry*>(ptr);
-    WrapperMap& wrappers = rbregistry->wrappers;
-    for (WrapperMap::iterator it = wrappers.begin(); it != wrappers.end(); ++it)
-    {
-        if (it->second.first)
-            delete it->first;
-    }
-
-    delete rbregistry;
+    delete reinterpret_cast<RbRegistry*>(ptr);
 }
 
 static
@@ -96,6 +87,7 @@ VALUE registry_remove(VALUE self, VALUE rbtype)
         rb_ary_push(result, cxx2rb::type_wrap(**it, self));
         cxx2rb::WrapperMap::iterator wrapper_it = rbregistry.wrappers.find(*it);
         wrapper_it->second.first = true;
+        boost::get_deleter<cxx2rb::RegistryDeleter>(rbregistry.registry)->removed.insert(*it);
     }
 
     return result;
diff --git a/bindings/ruby/ext/typelib.hh b/bindings/ruby/ext/typelib.hh
index c893879..897ce42 100644
--- a/bindings/ruby/ext/typelib.hh
+++ b/bindings/ruby/ext/typelib.hh
@@ -5,6 +5,7 @@
 #include <typelib/typemodel.hh>
 #include <typelib/value.hh>
 #include <typelib/registry.hh>
+#include <set>
 
 #include "typelib_ruby.hh"
 
@@ -39,6 +40,22 @@ namespace typelib_ruby {
 
         typedef std::map<Type const*, std::pair<bool, VALUE> > WrapperMap;
 
+        /** Deletes a registry along with the types that have been removed from
+         * it. There can be values of these, which need their type to be
+         * destroyed and keep a reference to the registry
+         */
+        struct RegistryDeleter
+        {
+            std::set<Typelib::Type*> removed;
+
+            void operator()(Typelib::Registry* registry) const
+            {
+                delete registry;
+                for (std::set<Typelib::Type*>::const_iterator it = removed.begin(); it != removed.end(); ++it)
+                    delete *it;
+            }
+        };
+
         struct RbRegistry
         {
             boost::shared_ptr<Typelib::Registry> registry;
@@ -50,12 +67,12 @@ namespace typelib_ruby {
              * through the remove call
              *
              * In both cases, they will be deleted only when the registry is
-             * garbage collected.
+             * garbage collected and the last of its values destroyed.
              */
             cxx2rb::WrapperMap wrappers;
 
             RbRegistry(Typelib::Registry* registry)
-                : registry(registry) {}
+                : registry(registry, RegistryDeleter()) {}
             ~RbRegistry() {}
         };
 
-- 
2.43.0


From 267ff4e2ebd909377d06a8710e7e96df176ee7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:50 +0000
Subject: [PATCH 57/99] fix: values of vectors were handled with the layout
 that their elements had before Registry::resize

---
 lang/csupport/containers.cc | 5 +++++
 lang/csupport/containers.hh | 1 +
 typelib/registry.cc         | 7 +++++++
 typelib/typemodel.hh        | 6 ++++++
 4 files changed, 19 insertions(+)

diff --git a/lang/csupport/containers.cc b/lang/csupport/containers.cc
index c6e5677..7a356d5 100644
--- a/lang/csupport/containers.cc
+++ b/lang/csupport/containers.cc
@@ -24,6 +24,11 @@ Vector::Vector(Type const& on)
 {
 }
 
+void Vector::resizedDependencies()
+{
+    element_layout = getElementLayout(getIndirection());
+}
+
 bool Vector::isElementMemcpy() const
 {
     return element_layout.isMemcpy();
diff --git a/lang/csupport/containers.hh b/lang/csupport/containers.hh
index 75a6d6f..55362ee 100644
--- a/lang/csupport/containers.hh
+++ b/lang/csupport/containers.hh
@@ -19,6 +19,7 @@ public:
     Vector(Typelib::Type const& on);
 
     static Typelib::MemoryLayout getElementLayout(Type const& element_t);
+    void resizedDependencies();
     bool hasElementLayout() const;
     bool isElementMemcpy() const;
 
diff --git a/typelib/registry.cc b/typelib/registry.cc
index c132425..625c144 100644
--- a/typelib/registry.cc
+++ b/typelib/registry.cc
@@ -610,6 +610,13 @@ namespace Typelib
             if (it.isAlias()) continue;
             it.get_().resize(*this, sizes);
         }
+
+        for(Iterator it = begin(); it != end(); ++it)
+        {
+            if (it.isAlias()) continue;
+            if (it->getCategory() == Type::Container)
+                dynamic_cast<Container&>(it.get_()).resizedDependencies();
+        }
     }
 
     std::set<Type const*> Registry::reverseDepends(Type const& type) const
diff --git a/typelib/typemodel.hh b/typelib/typemodel.hh
index 354f199..02efe8d 100644
--- a/typelib/typemodel.hh
+++ b/typelib/typemodel.hh
@@ -549,6 +549,12 @@ namespace Typelib
         Container(std::string const& kind, std::string const& name, size_t size, Type const& of);
 
         std::string kind() const;
+        /** Called once types that the elements depend on have been resized
+         * (see Registry::resize), to let the container update what it derived
+         * from them
+         */
+        virtual void resizedDependencies() {}
+
         virtual void init(void* ptr) const = 0;
         virtual void destroy(void* ptr) const = 0;
         virtual bool visit(void* ptr, ValueVisitor& visitor) const = 0;
-- 
2.43.0


From cdb5be10a8438d5a7ed492bf1c1091a8a94fbffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:55 +0000
Subject: [PATCH 58/99] fix: values created after their type was resized used
 the previous layout (Ruby)

---
 bindings/ruby/ext/memory.cc   | 54 +++++++++++++++++------------------
 bindings/ruby/ext/registry.cc |  1 +
 bindings/ruby/ext/typelib.hh  |  2 ++
 3 files changed, 29 insertions(+), 28 deletions(-)

diff --git a/bindings/ruby/ext/memory.cc b/bindings/ruby/ext/memory.cc
index eb95014..055db44 100644
--- a/bindings/ruby/ext/memory.cc
+++ b/bindings/ruby/ext/memory.cc
@@ -1,3 +1,4 @@
+#include <boost/weak_ptr.hpp>
 #include "typelib.hh"
 #include <typelib/value_ops.hh>
 #include <ruby.h>
@@ -61,21 +62,21 @@ struct MemoryTableEntry
 
 struct RbMemoryLayout
 {
-    int refcount;
+    void const* type;
     MemoryLayout layout;
     boost::shared_ptr<Registry> registry;
 
-    RbMemoryLayout()
-        : refcount(0) {}
-    RbMemoryLayout(MemoryLayout const& layout, boost::shared_ptr<Registry> registry)
-        : refcount(0), layout(layout), registry(registry) {}
+    RbMemoryLayout(void const* type, MemoryLayout const& layout, boost::shared_ptr<Registry> registry)
+        : type(type), layout(layout), registry(registry) {}
 };
 
 // MemoryTypes actually holds the memory layout of each memory zone. We cannot
 // simply use the Type object as, at exit, the Ruby GC do not order finalization
 // and therefore the registry can be deleted before the Type instances.
-typedef std::map< void const*, void const* > MemoryTypes;
-typedef std::map< void const*, RbMemoryLayout > TypeLayouts;
+typedef std::map< void const*, boost::shared_ptr<RbMemoryLayout> > MemoryTypes;
+// The layouts shared by the memory zones of a type. It does not own them: when
+// the type is resized, existing zones keep the layout they have been created with
+typedef std::map< void const*, boost::weak_ptr<RbMemoryLayout> > TypeLayouts;
 MemoryTypes memory_types;
 TypeLayouts memory_layouts;
 
@@ -153,11 +154,10 @@ typelib_ruby::memory_unref(void *ptr)
     MemoryTypes::iterator type_it = memory_types.find(ptr);
     if (type_it != memory_types.end())
     {
-        TypeLayouts::iterator layout_it = memory_layouts.find(type_it->second);
-        RbMemoryLayout& layout = layout_it->second;
-        if (0 == --layout.refcount)
-            memory_layouts.erase(layout_it);
+        TypeLayouts::iterator layout_it = memory_layouts.find(type_it->second->type);
         memory_types.erase(type_it);
+        if (layout_it != memory_layouts.end() && layout_it->second.expired())
+            memory_layouts.erase(layout_it);
     }
 }
 
@@ -167,14 +167,9 @@ typelib_ruby::memory_delete(void *ptr)
     MemoryTypes::iterator it = memory_types.find(ptr);
     if (it != memory_types.end())
     {
-        TypeLayouts::iterator layout_it = memory_layouts.find(it->second);
-        if (layout_it != memory_layouts.end())
-        {
-            RbMemoryLayout& layout = layout_it->second;
-            Typelib::destroy(
-                    static_cast<uint8_t*>(ptr),
-                    layout.layout);
-        }
+        Typelib::destroy(
+                static_cast<uint8_t*>(ptr),
+                it->second->layout);
     }
 
 #   ifdef VERBOSE
@@ -230,26 +225,29 @@ typelib_ruby::memory_init(VALUE ptr, VALUE type)
 
         // For deinitialization later, get or register the type's layout
         Type const& t(rb2cxx::object<Type>(type));
-        TypeLayouts::iterator layout_it = memory_layouts.find(&t);
-        if (layout_it == memory_layouts.end())
+        boost::shared_ptr<RbMemoryLayout> layout = memory_layouts[&t].lock();
+        if (!layout)
         {
             cxx2rb::RbRegistry& registry = rb2cxx::object<cxx2rb::RbRegistry>(type_get_registry(type));
             if (registry.registry->get(t.getName()) != &t)
                 throw std::logic_error("memory_init: mismatch between Ruby-registered registry and C++ registry that really holds the type for " + t.getName());
-            layout_it = memory_layouts.insert(
-                make_pair( &t, RbMemoryLayout(layout_of(t, true), registry.registry) )
-                ).first;
+            layout.reset(new RbMemoryLayout(&t, layout_of(t, true), registry.registry));
+            memory_layouts[&t] = layout;
         }
-        RbMemoryLayout& layout = layout_it->second;
-        ++layout.refcount;
 
-        memory_types.insert( make_pair(cptr, &t) );
-        Typelib::init(static_cast<uint8_t*>(cptr), layout.layout);
+        memory_types.insert( make_pair(cptr, layout) );
+        Typelib::init(static_cast<uint8_t*>(cptr), layout->layout);
     } catch(std::exception const& e) {
         rb_raise(rb_eArgError, "internal error: %s", e.what());
     }
 }
 
+void
+typelib_ruby::memory_resized_types()
+{
+    memory_layouts.clear();
+}
+
 VALUE
 typelib_ruby::memory_wrap(void* ptr, bool take_ownership, void* root_ptr)
 {
diff --git a/bindings/ruby/ext/registry.cc b/bindings/ruby/ext/registry.cc
index 8f0a667..22bae23 100644
--- a/bindings/ruby/ext/registry.cc
+++ b/bindings/ruby/ext/registry.cc
@@ -325,6 +325,7 @@ VALUE registry_resize(VALUE self, VALUE new_sizes)
     }
     try {
         registry.resize(sizes);
+        memory_resized_types();
         return Qnil;
     }
     catch(std::exception const& e) {
diff --git a/bindings/ruby/ext/typelib.hh b/bindings/ruby/ext/typelib.hh
index 897ce42..a2ee416 100644
--- a/bindings/ruby/ext/typelib.hh
+++ b/bindings/ruby/ext/typelib.hh
@@ -212,6 +212,8 @@ namespace typelib_ruby {
     extern VALUE memory_wrap(void* ptr, bool take_ownership, void* root_ptr);
     extern VALUE memory_allocate(size_t size);
     extern void  memory_init(VALUE ptr, VALUE type);
+    /* Must be called once types have been resized */
+    extern void  memory_resized_types();
     extern void* memory_cptr(VALUE ptr);
 }
 
-- 
2.43.0


From b1ab31060ab25c63dafbea0c73cc5d2f85525218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:55 +0000
Subject: [PATCH 59/99] fix: compounds and enums named 'struct X' and 'enum X'
 were exported with names that are not IDL identifiers

---
 lang/idl/export.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lang/idl/export.cc b/lang/idl/export.cc
index 215bee1..c5c6c9f 100644
--- a/lang/idl/export.cc
+++ b/lang/idl/export.cc
@@ -50,6 +50,11 @@ namespace
     static string normalizeIDLName(std::string const& name) {
         unsigned int template_mark;
         string result = name;
+        // In C, the names of structures and enums can have their keyword
+        if (result.compare(0, 7, "struct ") == 0)
+            result.erase(0, 7);
+        else if (result.compare(0, 5, "enum ") == 0)
+            result.erase(0, 5);
         while ((template_mark = result.find_first_of("<>/,*[]-")) < result.length()) {
             result.replace(template_mark, 1, "_");
         }
-- 
2.43.0


From 59878ef6293928e359b5b4c1879aa5126ac33b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:06 +0000
Subject: [PATCH 60/99] fix: array dimensions that are not numbers built arrays
 of arbitrary dimensions

---
 typelib/typebuilder.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/typelib/typebuilder.cc b/typelib/typebuilder.cc
index bcec4a1..379031b 100644
--- a/typelib/typebuilder.cc
+++ b/typelib/typebuilder.cc
@@ -130,7 +130,10 @@ namespace Typelib
                 if (start == string::npos)
                     throw InvalidIndirectName(full_name + " is not a valid type name: array definition missing opening bracket at character " + boost::lexical_cast<std::string>(end));
                 new_mod.category = Type::Array;
-                new_mod.size = atoi(&full_name[start] + 1);
+                try { new_mod.size = boost::lexical_cast<int>(full_name.substr(start + 1, end - start - 1)); }
+                catch(boost::bad_lexical_cast const&) { new_mod.size = -1; }
+                if (new_mod.size < 0)
+                    throw InvalidIndirectName(full_name + " is not a valid type name: invalid array dimension at character " + boost::lexical_cast<std::string>(start));
                 end = start - 1;
                 modlist.push_front(new_mod);
             }
-- 
2.43.0


From 49058b5b59c1777ad048abe77d6bd4dfbb7c35fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:07 +0000
Subject: [PATCH 61/99] fix: registry operations that are refused terminated
 the Ruby interpreter, and types of other registries were accepted as fields

---
 bindings/ruby/ext/registry.cc | 277 +++++++++++++++++-----------------
 bindings/ruby/ext/typelib.hh  |  14 ++
 bindings/ruby/ext/value.cc    |  14 --
 3 files changed, 156 insertions(+), 149 deletions(-)

diff --git a/bindings/ruby/ext/registry.cc b/bindings/ruby/ext/registry.cc
index 22bae23..d506d3e 100644
--- a/bindings/ruby/ext/registry.cc
+++ b/bindings/ruby/ext/registry.cc
@@ -78,6 +78,8 @@ VALUE registry_remove(VALUE self, VALUE rbtype)
     RbRegistry& rbregistry = rb2cxx::object<RbRegistry>(self);
     Registry&   registry = *(rbregistry.registry);
     Type const& type(rb2cxx::object<Type>(rbtype));
+    if (!registry.isIncluded(type))
+        rb_raise(rb_eArgError, "the given type object is not part of this registry");
     std::set<Type*> deleted = registry.remove(type);
 
     VALUE result = rb_ary_new();
@@ -126,6 +128,8 @@ VALUE registry_reverse_depends(VALUE self, VALUE rbtype)
 {
     Registry const& registry = rb2cxx::object<Registry>(self);
     Type const& type(rb2cxx::object<Type>(rbtype));
+    if (!registry.isIncluded(type))
+        rb_raise(rb_eArgError, "the given type object is not part of this registry");
     std::set<Type const*> rdeps = registry.reverseDepends(type);
 
     VALUE result = rb_ary_new();
@@ -150,21 +154,20 @@ VALUE registry_do_get(VALUE self, VALUE name)
 static
 VALUE registry_do_build(int argc, VALUE* argv, VALUE self)
 {
-    VALUE name = argv[0];
     int size = 0;
     if (argc == 0 || argc > 2)
         rb_raise(rb_eArgError, "expected one or two arguments, got %i", argc);
     else if (argc == 2)
         size = NUM2INT(argv[1]);
+    VALUE name = argv[0];
 
     Registry& registry = rb2cxx::object<Registry>(self);
-    try {
-        Type const* type = registry.build( StringValuePtr(name), size );
-        if (! type)
-            rb_raise(eNotFound, "cannot find %s in registry", StringValuePtr(name));
-        return cxx2rb::type_wrap(*type, self);
-    }
-    catch(std::exception const& e) { rb_raise(rb_eRuntimeError, "%s", e.what()); }
+    char const* cxx_name = StringValuePtr(name);
+    Type const* type = NULL;
+    raising_call([&] { type = registry.build(cxx_name, size); }, rb_eRuntimeError);
+    if (! type)
+        rb_raise(eNotFound, "cannot find %s in registry", cxx_name);
+    return cxx2rb::type_wrap(*type, self);
 }
 
 
@@ -178,14 +181,12 @@ VALUE registry_alias(VALUE self, VALUE name, VALUE aliased)
 {
     Registry& registry = rb2cxx::object<Registry>(self);
 
-    try {
-        registry.alias(StringValuePtr(aliased), StringValuePtr(name));
-        return self;
-    } catch(BadName const&) {
-        rb_raise(rb_eArgError, "invalid type name %s", StringValuePtr(name));
-    } catch(Undefined const&) {
-        rb_raise(eNotFound, "there is no type in this registry with the name '%s'", StringValuePtr(aliased));
-    }
+    char const* cxx_aliased = StringValuePtr(aliased);
+    char const* cxx_name = StringValuePtr(name);
+    if (!registry.get(cxx_aliased))
+        rb_raise(eNotFound, "there is no type in this registry with the name '%s'", cxx_aliased);
+    raising_call([&] { registry.alias(cxx_aliased, cxx_name); });
+    return self;
 }
 
 static
@@ -236,25 +237,22 @@ VALUE registry_import(VALUE self, VALUE file, VALUE kind, VALUE merge, VALUE opt
 {
     Registry& registry = rb2cxx::object<Registry>(self);
 
-    config_set config;
-    setup_configset_from_option_array(config, options);
+    char const* cxx_kind = StringValuePtr(kind);
+    char const* cxx_file = StringValuePtr(file);
+    raising_call([&] {
+        config_set config;
+        setup_configset_from_option_array(config, options);
 
-    std::string error_string;
-    try {
         if (RTEST(merge))
         {
             Registry temp;
-            PluginManager::load(StringValuePtr(kind), StringValuePtr(file), config, temp);
+            PluginManager::load(cxx_kind, cxx_file, config, temp);
             registry.merge(temp);
         }
         else
-            PluginManager::load(StringValuePtr(kind), StringValuePtr(file), config, registry);
-        return Qnil;
-    }
-    catch(boost::bad_lexical_cast const& e)   { error_string = e.what(); }
-    catch(std::exception const& e) { error_string = e.what(); }
-
-    rb_raise(rb_eRuntimeError, "%s", error_string.c_str());
+            PluginManager::load(cxx_kind, cxx_file, config, registry);
+    }, rb_eRuntimeError);
+    return Qnil;
 }
 
 /* Private method called by Registry#export. This latter method is supposed
@@ -266,16 +264,16 @@ VALUE registry_export(VALUE self, VALUE kind, VALUE options)
 {
     Registry& registry = rb2cxx::object<Registry>(self);
 
-    config_set config;
-    setup_configset_from_option_array(config, options);
+    char const* cxx_kind = StringValuePtr(kind);
+    VALUE result = Qnil;
+    raising_call([&] {
+        config_set config;
+        setup_configset_from_option_array(config, options);
 
-    string error_message;
-    try {
-        std::string exported = PluginManager::save(StringValuePtr(kind), config, registry);
-        return rb_str_new(exported.c_str(), exported.length());
-    }
-    catch (std::exception const& e) { error_message = e.what(); }
-    rb_raise(rb_eRuntimeError, "%s", error_message.c_str());
+        std::string exported = PluginManager::save(cxx_kind, config, registry);
+        result = rb_str_new(exported.c_str(), exported.length());
+    }, rb_eRuntimeError);
+    return result;
 }
 
 
@@ -288,16 +286,10 @@ VALUE registry_export(VALUE self, VALUE kind, VALUE options)
 static
 VALUE registry_merge(VALUE self, VALUE rb_merged)
 {
-    std::string error_string;
-
     Registry& registry = rb2cxx::object<Registry>(self);
     Registry& merged   = rb2cxx::object<Registry>(rb_merged);
-    try {
-        registry.merge(merged);
-        return self;
-    }
-    catch(std::exception const& e) { error_string = e.what(); }
-    rb_raise(rb_eRuntimeError, "%s", error_string.c_str());
+    raising_call([&] { registry.merge(merged); }, rb_eRuntimeError);
+    return self;
 }
 
 
@@ -313,51 +305,48 @@ VALUE registry_resize(VALUE self, VALUE new_sizes)
 {
     Registry& registry = rb2cxx::object<Registry>(self);
 
-    std::map<std::string, size_t> sizes;
+    // Raises if there is something that is not a size
     size_t map_size   = RARRAY_LEN(new_sizes);
     VALUE* map_values = RARRAY_PTR(new_sizes);
     for (size_t i = 0; i < map_size; ++i)
     {
         VALUE* pair = RARRAY_PTR(map_values[i]);
-        sizes.insert(std::make_pair(
-                StringValuePtr(pair[0]),
-                NUM2INT(pair[1])));
+        StringValuePtr(pair[0]);
+        if (NUM2INT(pair[1]) < 0)
+            rb_raise(rb_eArgError, "invalid type size %i", NUM2INT(pair[1]));
     }
-    try {
+    raising_call([&] {
+        std::map<std::string, size_t> sizes;
+        for (size_t i = 0; i < map_size; ++i)
+        {
+            VALUE* pair = RARRAY_PTR(map_values[i]);
+            sizes.insert(std::make_pair(
+                    StringValuePtr(pair[0]),
+                    NUM2INT(pair[1])));
+        }
         registry.resize(sizes);
-        memory_resized_types();
-        return Qnil;
-    }
-    catch(std::exception const& e) {
-        rb_raise(rb_eRuntimeError, "%s", e.what());
-    }
+    }, rb_eRuntimeError);
+    memory_resized_types();
+    return Qnil;
 }
 
 static
 VALUE registry_minimal(VALUE self, VALUE rb_auto, VALUE with_aliases)
 {
-    std::string error_string;
     Registry& registry   = rb2cxx::object<Registry>(self);
+    Registry* result     = NULL;
 
     if (rb_obj_is_kind_of(rb_auto, rb_cString))
     {
-        try {
-            Registry* result = registry.minimal(StringValuePtr(rb_auto), RTEST(with_aliases));
-            return registry_wrap(cRegistry, result);
-        }
-        catch(std::exception const& e)
-        { rb_raise(rb_eRuntimeError, "%s", e.what()); }
+        char const* name = StringValuePtr(rb_auto);
+        raising_call([&] { result = registry.minimal(std::string(name), RTEST(with_aliases)); }, rb_eRuntimeError);
     }
     else
     {
         Registry& auto_types = rb2cxx::object<Registry>(rb_auto);
-        try {
-            Registry* result = registry.minimal(auto_types, RTEST(with_aliases));
-            return registry_wrap(cRegistry, result);
-        }
-        catch(std::exception const& e)
-        { rb_raise(rb_eRuntimeError, "%s", e.what()); }
+        raising_call([&] { result = registry.minimal(auto_types, RTEST(with_aliases)); }, rb_eRuntimeError);
     }
+    return registry_wrap(cRegistry, result);
 }
 
 
@@ -433,14 +422,14 @@ VALUE registry_merge_xml(VALUE rb_registry, VALUE xml)
 {
     Registry& registry = rb2cxx::object<Registry>(rb_registry);
 
-    std::istringstream istream(StringValuePtr(xml));
-    config_set config;
-    try { PluginManager::load("tlb", istream, config, registry); }
-    catch(boost::bad_lexical_cast const& e)
-    { rb_raise(rb_eArgError, "cannot load xml: %s", e.what()); }
-    catch(std::exception const& e)
-    { rb_raise(rb_eArgError, "cannot load xml: %s", e.what()); }
-
+    char const* text = StringValuePtr(xml);
+    raising_call([&] {
+        std::istringstream istream(text);
+        config_set config;
+        try { PluginManager::load("tlb", istream, config, registry); }
+        catch(std::exception const& e)
+        { throw std::runtime_error(std::string("cannot load xml: ") + e.what()); }
+    });
     return rb_registry;
 }
 
@@ -472,10 +461,8 @@ static VALUE registry_aliases_of(VALUE self, VALUE type_)
 static VALUE registry_remove_alias(VALUE self, VALUE name)
 {
     Registry& registry = rb2cxx::object<Registry>(self);
-    try { registry.removeAlias(StringValuePtr(name)); }
-    catch(std::runtime_error const& e) {
-        rb_raise(rb_eArgError, "%s", e.what());
-    }
+    char const* cxx_name = StringValuePtr(name);
+    raising_call([&] { registry.removeAlias(cxx_name); });
     return Qnil;
 }
 
@@ -549,15 +536,18 @@ static VALUE registry_define_container(VALUE registry, VALUE kind, VALUE element
     if (!reg.isIncluded(element_type))
         rb_raise(rb_eArgError, "the given type object comes from a different type registry");
 
-    try {
-        Container const& new_type = Container::createContainer(reg, StringValuePtr(kind), element_type);
-        size_t size = NUM2INT(_size);
+    char const* kind_name = StringValuePtr(kind);
+    int size = NUM2INT(_size);
+    Container const* new_type = NULL;
+    raising_call([&] {
+        try { new_type = &Container::createContainer(reg, kind_name, element_type); }
+        catch(Typelib::UnknownContainer const&) { return; }
         if (size != 0)
-            reg.get_(new_type).setSize(size);
-        return cxx2rb::type_wrap(new_type, registry);
-    } catch(Typelib::UnknownContainer const&) {
-        rb_raise(eNotFound, "%s is not a known container type", StringValuePtr(kind));
-    }
+            reg.get_(*new_type).setSize(size);
+    });
+    if (!new_type)
+        rb_raise(eNotFound, "%s is not a known container type", kind_name);
+    return cxx2rb::type_wrap(*new_type, registry);
 }
 
 /*
@@ -569,12 +559,26 @@ static VALUE registry_define_container(VALUE registry, VALUE kind, VALUE element
 static VALUE registry_add_standard_cxx_types(VALUE klass, VALUE registry)
 {
     Registry& reg = rb2cxx::object<Registry>(registry);
-    try { Typelib::CXX::addStandardTypes(reg); }
-    catch(Typelib::AlreadyDefined const& e)
-    { rb_raise(rb_eArgError, "%s", e.what()); }
+    raising_call([&] { Typelib::CXX::addStandardTypes(reg); });
     return registry;
 }
 
+/* Adds a new type to a registry, raising ArgumentError if it is refused. The
+ * type is created by the function, which must not raise
+ */
+template<typename F>
+static VALUE registry_add_new_type(VALUE registry, F create)
+{
+    Registry& reg = rb2cxx::object<Registry>(registry);
+    Typelib::Type* type = NULL;
+    raising_call([&] {
+        std::unique_ptr<Typelib::Type> new_t(create());
+        reg.add(new_t.get(), true, "");
+        type = new_t.release();
+    });
+    return cxx2rb::type_wrap(*type, registry);
+}
+
 /*
  * call-seq:
  *   registry.do_create_compound(name, field_defs, size)
@@ -584,28 +588,35 @@ static VALUE registry_add_standard_cxx_types(VALUE klass, VALUE registry)
 static VALUE registry_create_compound(VALUE registry, VALUE name, VALUE field_defs, VALUE _size)
 {
     Registry& reg = rb2cxx::object<Registry>(registry);
+    char const* cxx_name = StringValuePtr(name);
+    size_t size = NUM2INT(_size);
 
-    std::unique_ptr<Typelib::Compound> new_t(new Typelib::Compound(StringValuePtr(name)));
-
+    // Raises if there is something that is not a field
     int field_count = RARRAY_LEN(field_defs);
     for (int i = 0; i < field_count; ++i)
     {
         VALUE field = rb_ary_entry(field_defs, i);
-
         VALUE rb_name = rb_ary_entry(field, 0);
-        std::string field_name(StringValuePtr(rb_name));
-        Typelib::Type& field_type(rb2cxx::object<Type>(rb_ary_entry(field, 1)));
-        int offset(NUM2INT(rb_ary_entry(field, 2)));
-        new_t->addField(field_name, field_type, offset);
+        StringValuePtr(rb_name);
+        if (!reg.isIncluded(rb2cxx::object<Type>(rb_ary_entry(field, 1))))
+            rb_raise(rb_eArgError, "the type of %s comes from a different type registry", StringValuePtr(rb_name));
+        NUM2INT(rb_ary_entry(field, 2));
     }
 
-    Typelib::Compound* type = new_t.release();
-    size_t size = NUM2INT(_size);
-    if (size != 0)
-        type->setSize(size);
-    try { reg.add(type, true, ""); }
-    catch(std::runtime_error const& e) { rb_raise(rb_eArgError, "%s", e.what()); }
-    return cxx2rb::type_wrap(*type, registry);
+    return registry_add_new_type(registry, [&] {
+        std::unique_ptr<Typelib::Compound> new_t(new Typelib::Compound(cxx_name));
+        for (int i = 0; i < field_count; ++i)
+        {
+            VALUE field = rb_ary_entry(field_defs, i);
+            VALUE rb_name = rb_ary_entry(field, 0);
+            new_t->addField(StringValuePtr(rb_name),
+                    rb2cxx::object<Type>(rb_ary_entry(field, 1)),
+                    NUM2INT(rb_ary_entry(field, 2)));
+        }
+        if (size != 0)
+            new_t->setSize(size);
+        return new_t.release();
+    });
 }
 
 /*
@@ -616,27 +627,31 @@ static VALUE registry_create_compound(VALUE registry, VALUE name, VALUE field_de
  */
 static VALUE registry_create_enum(VALUE registry, VALUE name, VALUE symbol_defs, VALUE _size)
 {
-    Registry& reg = rb2cxx::object<Registry>(registry);
-
-    std::unique_ptr<Typelib::Enum> new_t(new Typelib::Enum(StringValuePtr(name)));
+    char const* cxx_name = StringValuePtr(name);
+    size_t size = NUM2INT(_size);
 
+    // Raises if there is something that is not a symbol
     int symbol_count = RARRAY_LEN(symbol_defs);
     for (int i = 0; i < symbol_count; ++i)
     {
         VALUE sym = rb_ary_entry(symbol_defs, i);
-
         VALUE rb_name = rb_ary_entry(sym, 0);
-        std::string sym_name(StringValuePtr(rb_name));
-        int sym_value(NUM2INT(rb_ary_entry(sym, 1)));
-        new_t->add(sym_name, sym_value);
+        StringValuePtr(rb_name);
+        NUM2INT(rb_ary_entry(sym, 1));
     }
 
-    Typelib::Enum* type = new_t.release();
-    size_t size = NUM2INT(_size);
-    if (size != 0) type->setSize(size);
-    try { reg.add(type, true, ""); }
-    catch(std::runtime_error const& e) { rb_raise(rb_eArgError, "%s", e.what()); }
-    return cxx2rb::type_wrap(*type, registry);
+    return registry_add_new_type(registry, [&] {
+        std::unique_ptr<Typelib::Enum> new_t(new Typelib::Enum(cxx_name));
+        for (int i = 0; i < symbol_count; ++i)
+        {
+            VALUE sym = rb_ary_entry(symbol_defs, i);
+            VALUE rb_name = rb_ary_entry(sym, 0);
+            new_t->add(StringValuePtr(rb_name), NUM2INT(rb_ary_entry(sym, 1)));
+        }
+        if (size != 0)
+            new_t->setSize(size);
+        return new_t.release();
+    });
 }
 
 /*
@@ -647,11 +662,9 @@ static VALUE registry_create_enum(VALUE registry, VALUE name, VALUE symbol_defs,
  */
 static VALUE registry_create_opaque(VALUE registry, VALUE _name, VALUE _size)
 {
-    Registry& reg = rb2cxx::object<Registry>(registry);
-    Typelib::Type* type = new Typelib::OpaqueType(StringValuePtr(_name), NUM2INT(_size));
-    try { reg.add(type, true, ""); }
-    catch(std::runtime_error const& e) { rb_raise(rb_eArgError, "%s", e.what()); }
-    return cxx2rb::type_wrap(*type, registry);
+    char const* name = StringValuePtr(_name);
+    int size = NUM2INT(_size);
+    return registry_add_new_type(registry, [&] { return new Typelib::OpaqueType(name, size); });
 }
 
 /*
@@ -664,8 +677,6 @@ static VALUE registry_create_opaque(VALUE registry, VALUE _name, VALUE _size)
  */
 static VALUE registry_do_create_numeric(VALUE registry, VALUE _name, VALUE _size, VALUE _category)
 {
-    Registry& reg = rb2cxx::object<Registry>(registry);
-
     Typelib::Numeric::NumericCategory typelib_category;
     int category = NUM2INT(_category);
     if (category == 0)
@@ -676,10 +687,9 @@ static VALUE registry_do_create_numeric(VALUE registry, VALUE _name, VALUE _size
         typelib_category = Typelib::Numeric::Float;
     else rb_raise(rb_eArgError, "invalid mode %i, accepted modes are 0 (for SInt), 1 (for UInt) and 2 (for Float)", category);
 
-    Typelib::Type* type = new Typelib::Numeric(StringValuePtr(_name), NUM2INT(_size), typelib_category);
-    try { reg.add(type, true, ""); }
-    catch(std::runtime_error const& e) { rb_raise(rb_eArgError, "%s", e.what()); }
-    return cxx2rb::type_wrap(*type, registry);
+    char const* name = StringValuePtr(_name);
+    int size = NUM2INT(_size);
+    return registry_add_new_type(registry, [&] { return new Typelib::Numeric(name, size, typelib_category); });
 }
 
 /*
@@ -690,11 +700,8 @@ static VALUE registry_do_create_numeric(VALUE registry, VALUE _name, VALUE _size
  */
 static VALUE registry_create_null(VALUE registry, VALUE _name)
 {
-    Registry& reg = rb2cxx::object<Registry>(registry);
-    Typelib::Type* type = new Typelib::NullType(StringValuePtr(_name));
-    try { reg.add(type, true, ""); }
-    catch(std::runtime_error const& e) { rb_raise(rb_eArgError, "%s", e.what()); }
-    return cxx2rb::type_wrap(*type, registry);
+    char const* name = StringValuePtr(_name);
+    return registry_add_new_type(registry, [&] { return new Typelib::NullType(name); });
 }
 
 void typelib_ruby::Typelib_init_registry()
diff --git a/bindings/ruby/ext/typelib.hh b/bindings/ruby/ext/typelib.hh
index a2ee416..fa675d1 100644
--- a/bindings/ruby/ext/typelib.hh
+++ b/bindings/ruby/ext/typelib.hh
@@ -204,6 +204,20 @@ namespace typelib_ruby {
         VALUE apply(Typelib::Value value, VALUE new_value);
     };
 
+    /* Calls f, raising error_class instead of the C++ exceptions it throws. What
+     * has to be destroyed must be local to f, and f must not raise: raising
+     * does not destroy C++ objects
+     */
+    template<typename F>
+    void raising_call(F f, VALUE error_class = rb_eArgError)
+    {
+        VALUE error = Qnil;
+        try { f(); return; }
+        catch(std::exception const& e)
+        { error = rb_exc_new2(error_class, e.what()); }
+        rb_exc_raise(error);
+    }
+
     extern VALUE value_get_registry(VALUE self);
     extern VALUE type_get_registry(VALUE self);
     extern bool memory_ref(void* ptr);
diff --git a/bindings/ruby/ext/value.cc b/bindings/ruby/ext/value.cc
index ff347bb..be508ef 100644
--- a/bindings/ruby/ext/value.cc
+++ b/bindings/ruby/ext/value.cc
@@ -48,20 +48,6 @@ void* value_root_ptr(VALUE value)
  *   same DLPtr object, or DL will override the free function of the other
  *   DLPtr object -- which is obviously wrong, but nevertheless done.
  */
-/* Calls f, raising ArgumentError instead of the C++ exceptions it throws. What
- * has to be destroyed must be local to f: raising does not destroy the caller's
- * objects
- */
-template<typename F>
-static void raising_call(F f)
-{
-    VALUE error = Qnil;
-    try { f(); return; }
-    catch(std::exception const& e)
-    { error = rb_exc_new2(rb_eArgError, e.what()); }
-    rb_exc_raise(error);
-}
-
 VALUE cxx2rb::value_wrap(Value v, VALUE registry, VALUE parent)
 {
     VALUE type = type_wrap(v.getType(), registry);
-- 
2.43.0


From 4ff49f98a808cc2573598e2e9caa05b4eb7b0bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:59 +0000
Subject: [PATCH 62/99] fix: metadata objects read freed memory once their
 registry had been garbage collected (Ruby)

---
 bindings/ruby/ext/metadata.cc          | 7 +++++--
 bindings/ruby/ext/specialized_types.cc | 2 +-
 bindings/ruby/ext/typelib.hh           | 2 +-
 bindings/ruby/ext/value.cc             | 2 +-
 4 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/bindings/ruby/ext/metadata.cc b/bindings/ruby/ext/metadata.cc
index 1ed511b..7751c95 100644
--- a/bindings/ruby/ext/metadata.cc
+++ b/bindings/ruby/ext/metadata.cc
@@ -10,9 +10,12 @@ using namespace typelib_ruby;
 VALUE typelib_ruby::cMetaData;
 rb_encoding* enc_utf8;
 
-VALUE cxx2rb::metadata_wrap(MetaData& metadata)
+VALUE cxx2rb::metadata_wrap(MetaData& metadata, VALUE owner)
 {
-    return Data_Wrap_Struct(cMetaData, 0, 0, &metadata);
+    VALUE result = Data_Wrap_Struct(cMetaData, 0, 0, &metadata);
+    // The metadata belongs to the C++ type, which has to stay alive
+    rb_iv_set(result, "@owner", owner);
+    return result;
 }
 
 static VALUE metadata_include_p(VALUE self, VALUE key)
diff --git a/bindings/ruby/ext/specialized_types.cc b/bindings/ruby/ext/specialized_types.cc
index 0dec20d..1594e30 100644
--- a/bindings/ruby/ext/specialized_types.cc
+++ b/bindings/ruby/ext/specialized_types.cc
@@ -33,7 +33,7 @@ static VALUE compound_get_fields(VALUE self)
         rb_ary_store(field_def, 0, field_name);
         rb_ary_store(field_def, 1, INT2FIX(it->getOffset()));
         rb_ary_store(field_def, 2, field_type);
-        rb_ary_store(field_def, 3, cxx2rb::metadata_wrap(it->getMetaData()));
+        rb_ary_store(field_def, 3, cxx2rb::metadata_wrap(it->getMetaData(), self));
         rb_ary_push(fieldlist, field_def);
     }
 
diff --git a/bindings/ruby/ext/typelib.hh b/bindings/ruby/ext/typelib.hh
index fa675d1..a728fb9 100644
--- a/bindings/ruby/ext/typelib.hh
+++ b/bindings/ruby/ext/typelib.hh
@@ -85,7 +85,7 @@ namespace typelib_ruby {
         template<> inline VALUE class_of<MetaData>() { return cMetaData; }
 
         VALUE type_wrap(Type const& type, VALUE registry);
-        VALUE metadata_wrap(MetaData& metadata);
+        VALUE metadata_wrap(MetaData& metadata, VALUE owner);
 
         /* Get the Ruby symbol associated with a C enum, or nil
          * if the value is not valid for this enum
diff --git a/bindings/ruby/ext/value.cc b/bindings/ruby/ext/value.cc
index be508ef..580a3b5 100644
--- a/bindings/ruby/ext/value.cc
+++ b/bindings/ruby/ext/value.cc
@@ -122,7 +122,7 @@ VALUE cxx2rb::type_wrap(Type const& type, VALUE registry)
     rb_iv_set(klass, "@name", rb_str_new2(type.getName().c_str()));
     rb_iv_set(klass, "@null", (type.getCategory() == Type::NullType) ? Qtrue : Qfalse);
     rb_iv_set(klass, "@opaque", (type.getCategory() == Type::Opaque) ? Qtrue : Qfalse);
-    rb_iv_set(klass, "@metadata", cxx2rb::metadata_wrap(type.getMetaData()));
+    rb_iv_set(klass, "@metadata", cxx2rb::metadata_wrap(type.getMetaData(), klass));
 
     if (rb_respond_to(klass, rb_intern("subclass_initialize")))
         rb_funcall(klass, rb_intern("subclass_initialize"), 0);
-- 
2.43.0


From ce20d5cd2582918eabff3001511dae69b4ad16dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:29 +0000
Subject: [PATCH 63/99] fix: exporting a registry to a module that has no
 registry attribute recursed forever (Ruby)

---
 bindings/ruby/lib/typelib/registry.rb        |  3 +++
 bindings/ruby/lib/typelib/registry_export.rb | 10 ++++++++++
 2 files changed, 13 insertions(+)

diff --git a/bindings/ruby/lib/typelib/registry.rb b/bindings/ruby/lib/typelib/registry.rb
index 9fd8630..5f3a8bd 100644
--- a/bindings/ruby/lib/typelib/registry.rb
+++ b/bindings/ruby/lib/typelib/registry.rb
@@ -109,6 +109,9 @@ module Typelib
         # which it should be done is given in +base_module+
         def export_to_ruby(base_module, options = Hash.new, &block)
             base_module.extend RegistryExport
+            if !base_module.respond_to?(:registry)
+                base_module.extend RegistryExport::RegistryAttribute
+            end
             base_module.reset_registry_export(self, block, '/')
         end
 
diff --git a/bindings/ruby/lib/typelib/registry_export.rb b/bindings/ruby/lib/typelib/registry_export.rb
index 2e709fb..ab202b3 100644
--- a/bindings/ruby/lib/typelib/registry_export.rb
+++ b/bindings/ruby/lib/typelib/registry_export.rb
@@ -34,6 +34,16 @@ module Typelib
 
         class NotFound < RuntimeError; end
 
+        # Holds the registry of modules that do not have one by themselves
+        module RegistryAttribute
+            attr_reader :registry
+
+            def reset_registry_export(registry = self.registry, *)
+                @registry = registry
+                super
+            end
+        end
+
         attr_reader :__typelib_registry_export_typename_prefix
         attr_reader :__typelib_registry_export_filter_block
 
-- 
2.43.0


From e8806d8563bd91ff5ea267be8f6528c679932f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:29 +0000
Subject: [PATCH 64/99] fix: exported types were only found by their CamelCase
 names in the first namespace in which one was looked up (Ruby)

---
 bindings/ruby/lib/typelib/registry_export.rb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/typelib/registry_export.rb b/bindings/ruby/lib/typelib/registry_export.rb
index ab202b3..d8c1eed 100644
--- a/bindings/ruby/lib/typelib/registry_export.rb
+++ b/bindings/ruby/lib/typelib/registry_export.rb
@@ -129,7 +129,7 @@ module Typelib
             # Try harder ... for weird naming conventions ... but that's costly
             template_args = template_args_to_typelib(args)
             registry.each(typename_prefix) do |type|
-                if type.name =~ /^#{Regexp.quote(typename_prefix)}[^\/]+$/o
+                if type.name =~ /^#{Regexp.quote(typename_prefix)}[^\/]+$/
                     if type.basename.snakecase == "#{m.to_s.snakecase}#{template_args}"
                         return type
                     end
-- 
2.43.0


From d993b748fb5674a0528b3a56a69ab5fbdae5aad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:29 +0000
Subject: [PATCH 65/99] fix: exported namespaces were cached under the name of
 the module instead of their own (Ruby)

---
 bindings/ruby/lib/typelib/registry_export.rb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/typelib/registry_export.rb b/bindings/ruby/lib/typelib/registry_export.rb
index d8c1eed..c92cb3e 100644
--- a/bindings/ruby/lib/typelib/registry_export.rb
+++ b/bindings/ruby/lib/typelib/registry_export.rb
@@ -193,7 +193,7 @@ module Typelib
             elsif basename = RegistryExport.find_namespace(relaxed_naming, @__typelib_registry_export_typename_prefix, registry, m, *args)
                 ns = Namespace.new
                 ns.initialize_registry_export(self, basename)
-                @__typelib_registry_export_cache[[name, []]] = ns
+                @__typelib_registry_export_cache[[m, args]] = ns
             end
         end
 
-- 
2.43.0


From 350262791558c524bcc8963e2e18473e7a456f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:29 +0000
Subject: [PATCH 66/99] fix: CXX.parse_template did not find the end of
 arguments that are templates without arguments (Ruby)

---
 bindings/ruby/lib/typelib/cxx.rb | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bindings/ruby/lib/typelib/cxx.rb b/bindings/ruby/lib/typelib/cxx.rb
index d9924c3..3548b31 100644
--- a/bindings/ruby/lib/typelib/cxx.rb
+++ b/bindings/ruby/lib/typelib/cxx.rb
@@ -25,7 +25,7 @@ module Typelib
                 when "<"
                     level += 1
                     if level > 1
-                        current << "<" << tokens.shift
+                        current << "<"
                     else
                         current = []
                     end
@@ -43,7 +43,7 @@ module Typelib
                         arguments << current
                         current = []
                     else
-                        current << "," << tokens.shift
+                        current << ","
                     end
                 else
                     current << tk
-- 
2.43.0


From 5df39930783ca5e788dce90aae95169a621023e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:40 +0000
Subject: [PATCH 67/99] fix: metadata was cut at NUL characters, lost when it
 was set to something that is not a string, and leaked then (Ruby)

---
 bindings/ruby/ext/metadata.cc         | 30 ++++++++++++++++++++-------
 bindings/ruby/lib/typelib/metadata.rb |  4 ++++
 2 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/bindings/ruby/ext/metadata.cc b/bindings/ruby/ext/metadata.cc
index 7751c95..c240486 100644
--- a/bindings/ruby/ext/metadata.cc
+++ b/bindings/ruby/ext/metadata.cc
@@ -18,16 +18,24 @@ VALUE cxx2rb::metadata_wrap(MetaData& metadata, VALUE owner)
     return result;
 }
 
+// The whole content of a Ruby string, which is known to be one
+static std::string metadata_string(VALUE str)
+{
+    return std::string(RSTRING_PTR(str), RSTRING_LEN(str));
+}
+
 static VALUE metadata_include_p(VALUE self, VALUE key)
 {
     MetaData& metadata = rb2cxx::object<MetaData>(self);
-    return metadata.include(StringValuePtr(key)) ? Qtrue : Qfalse;
+    StringValue(key);
+    return metadata.include(metadata_string(key)) ? Qtrue : Qfalse;
 }
 
 static VALUE metadata_get(VALUE self, VALUE key)
 {
     MetaData& metadata = rb2cxx::object<MetaData>(self);
-    MetaData::Values v = metadata.get(StringValuePtr(key));
+    StringValue(key);
+    MetaData::Values v = metadata.get(metadata_string(key));
 
     VALUE result = rb_ary_new();
     for (MetaData::Values::const_iterator it = v.begin(); it != v.end(); ++it)
@@ -53,16 +61,20 @@ static VALUE metadata_add(int argc, VALUE* argv, VALUE self)
     rb_scan_args(argc, argv, "1*", &key, &values);
 
     MetaData& metadata = rb2cxx::object<MetaData>(self);
-    std::string rb_key(StringValuePtr(key));
 
-    MetaData::Values new_values;
+    // Raises if there is something that is not a string
+    StringValue(key);
     long length = RARRAY_LEN(values);
     for (long i = 0; i < length; ++i)
     {
         VALUE val = rb_ary_entry(values, i);
-        new_values.insert(StringValuePtr(val));
+        rb_ary_store(values, i, StringValue(val));
     }
-    metadata.add(rb_key, new_values);
+
+    MetaData::Values new_values;
+    for (long i = 0; i < length; ++i)
+        new_values.insert(metadata_string(rb_ary_entry(values, i)));
+    metadata.add(metadata_string(key), new_values);
     return Qnil;
 }
 
@@ -72,7 +84,11 @@ static VALUE metadata_clear(int argc, VALUE* argv, VALUE self)
     if (argc == 0)
         metadata.clear();
     else if (argc == 1)
-        metadata.clear(StringValuePtr(argv[0]));
+    {
+        VALUE key = argv[0];
+        StringValue(key);
+        metadata.clear(metadata_string(key));
+    }
     return Qnil;
 }
 
diff --git a/bindings/ruby/lib/typelib/metadata.rb b/bindings/ruby/lib/typelib/metadata.rb
index 346555f..a4dd982 100644
--- a/bindings/ruby/lib/typelib/metadata.rb
+++ b/bindings/ruby/lib/typelib/metadata.rb
@@ -16,6 +16,10 @@ module Typelib
             set(index,value)
         end
         def set(key, *values)
+            values.each do |v|
+                String.try_convert(v) ||
+                    raise(TypeError, "no implicit conversion of #{v.class} into String")
+            end
             clear(key)
             add(key, *values)
         end
-- 
2.43.0


From 5150565b9af76cc04f215d0d2d31f8799e34859f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:17 +0000
Subject: [PATCH 68/99] fix: memory_eql? read beyond the end of values of
 another type (Ruby)

---
 bindings/ruby/ext/value.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bindings/ruby/ext/value.cc b/bindings/ruby/ext/value.cc
index 580a3b5..5a58c63 100644
--- a/bindings/ruby/ext/value.cc
+++ b/bindings/ruby/ext/value.cc
@@ -614,8 +614,9 @@ VALUE value_memory_eql_p(VALUE rbself, VALUE rbwith)
     if (self.getData() == with.getData())
         return Qtrue;
 
-    // Type#== checks for type equality before calling memory_equal?
     Type const& type = self.getType();
+    if (with.getType() != type && !with.getType().canCastTo(type))
+        return Qfalse;
     return memcmp(self.getData(), with.getData(), type.getSize()) == 0 ? Qtrue : Qfalse;
 }
 
-- 
2.43.0


From aff31f7ec06be59ac91db96000a1f698e94e8d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:23 +0000
Subject: [PATCH 69/99] fix: values loaded with from_buffer still had the
 converted fields that were read before (Ruby)

---
 bindings/ruby/lib/typelib/type.rb | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bindings/ruby/lib/typelib/type.rb b/bindings/ruby/lib/typelib/type.rb
index f6e5558..30015fe 100644
--- a/bindings/ruby/lib/typelib/type.rb
+++ b/bindings/ruby/lib/typelib/type.rb
@@ -684,6 +684,7 @@ module Typelib
         # provided mainly for libraries that are unmarshalling a lot of typelib
         # samples, to remove the overhead of option validation
         def from_buffer_direct(string, accept_pointers = false, accept_opaques = false, merge_skip_copy = true, remove_trailing_skips = true)
+            invalidate_changes_from_converted_types
             allocating_operation do
                 do_from_buffer(string,
                                accept_pointers,
-- 
2.43.0


From 42c2e70a54d5e0e3c95cf3eea918a41b7257877c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:59 +0000
Subject: [PATCH 70/99] fix: PointerType.create_null always failed (Ruby)

---
 bindings/ruby/lib/typelib/pointer_type.rb | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/bindings/ruby/lib/typelib/pointer_type.rb b/bindings/ruby/lib/typelib/pointer_type.rb
index f25f06f..b333488 100644
--- a/bindings/ruby/lib/typelib/pointer_type.rb
+++ b/bindings/ruby/lib/typelib/pointer_type.rb
@@ -11,9 +11,7 @@ module Typelib
     class PointerType < IndirectType
         # Creates and initializes to zero a value of this pointer type
         def self.create_null
-            result = new
-            result.zero!
-            result
+            create(zero: true)
         end
 
         def self.to_ruby(value)
-- 
2.43.0


From 87c76901bbe999d81da5fa8449d532112e71cef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:01 +0000
Subject: [PATCH 71/99] fix: frozen values could be modified as a whole and
 through their components (Ruby)

---
 bindings/ruby/lib/typelib.rb                |  2 ++
 bindings/ruby/lib/typelib/array_type.rb     |  2 +-
 bindings/ruby/lib/typelib/compound_type.rb  |  8 ++++++--
 bindings/ruby/lib/typelib/container_type.rb |  9 +++++----
 bindings/ruby/lib/typelib/type.rb           | 18 ++++++++++++++++++
 5 files changed, 32 insertions(+), 7 deletions(-)

diff --git a/bindings/ruby/lib/typelib.rb b/bindings/ruby/lib/typelib.rb
index 7be00f7..e01abfe 100644
--- a/bindings/ruby/lib/typelib.rb
+++ b/bindings/ruby/lib/typelib.rb
@@ -247,6 +247,8 @@ module Typelib
             raise TypeError, "cannot copy, the target has been invalidated"
         elsif from.invalidated?
             raise TypeError, "cannot copy, the source has been invalidated"
+        elsif to.frozen?
+            raise TypeError, "cannot copy, the target is frozen"
         end
 
         if to.respond_to?(:invalidate_changes_from_converted_types)
diff --git a/bindings/ruby/lib/typelib/array_type.rb b/bindings/ruby/lib/typelib/array_type.rb
index 7bc7ae0..95482d0 100644
--- a/bindings/ruby/lib/typelib/array_type.rb
+++ b/bindings/ruby/lib/typelib/array_type.rb
@@ -155,7 +155,7 @@ module Typelib
             if index < 0
                 raise ArgumentError, "index out of bounds (#{index} < 0)"
             end
-            @elements[index] ||= do_get(index)
+            @elements[index] ||= freeze_child(do_get(index))
         end
 
         def raw_set(index, value)
diff --git a/bindings/ruby/lib/typelib/compound_type.rb b/bindings/ruby/lib/typelib/compound_type.rb
index 36eba73..89c4b14 100644
--- a/bindings/ruby/lib/typelib/compound_type.rb
+++ b/bindings/ruby/lib/typelib/compound_type.rb
@@ -90,6 +90,8 @@ module Typelib
 
             def apply_changes_from_converted_types
                 super()
+                return if frozen?
+
                 self.class.converted_fields.each do |field_name|
                     value = instance_variable_get("@#{FIELD_NANE_PREFIX}#{field_name}")
                     if !value.nil?
@@ -180,6 +182,8 @@ module Typelib
                         converted_fields.each do |field_name|
                             attr_name = "@#{FIELD_NANE_PREFIX}#{field_name}"
                             define_method("#{field_name}=") do |value|
+                                raise TypeError, "frozen object" if frozen?
+
                                 instance_variable_set(attr_name, value)
                             end
                             define_method(field_name) do
@@ -451,7 +455,7 @@ module Typelib
             else
                 value = typelib_get_field(name, false)
                 if value.kind_of?(Typelib::Type)
-                    @fields[name] = value
+                    @fields[name] = freeze_child(value)
                     Typelib.to_ruby(value, @field_types[name])
                 else value
                 end
@@ -460,7 +464,7 @@ module Typelib
 
         def raw_get(name)
             name = name.to_s
-            @fields[name] ||= typelib_get_field(name, true)
+            @fields[name] ||= freeze_child(typelib_get_field(name, true))
         end
 
         def raw_get_cached(name)
diff --git a/bindings/ruby/lib/typelib/container_type.rb b/bindings/ruby/lib/typelib/container_type.rb
index acc439c..fe0c886 100644
--- a/bindings/ruby/lib/typelib/container_type.rb
+++ b/bindings/ruby/lib/typelib/container_type.rb
@@ -17,6 +17,7 @@ module Typelib
         # Module used to extend frozen values
         module Freezer
             def clear; raise TypeError, "frozen object" end
+            def raw_memcpy(*args); raise TypeError, "frozen object" end
             def do_set(*args); raise TypeError, "frozen object" end
             def do_delete_if(*args); raise TypeError, "frozen object" end
             def do_erase(*args); raise TypeError, "frozen object" end
@@ -81,7 +82,7 @@ module Typelib
             # Private version of the getters, to bypass the index boundary
             # checks
             def raw_get_no_boundary_check(index)
-                @elements[index] ||= do_get(index, true)
+                @elements[index] ||= freeze_child(do_get(index, true))
             end
 
             # Private version of the getters, to bypass the index boundary
@@ -92,7 +93,7 @@ module Typelib
                 else
                     value = do_get(index, false)
                     if value.kind_of?(Typelib::Type)
-                        @elements[index] = value
+                        @elements[index] = freeze_child(value)
                         __element_to_ruby(value)
                     else value
                     end
@@ -342,7 +343,7 @@ module Typelib
 
             idx = 0
             do_each(true) do |el|
-                yield(@elements[idx] ||= el)
+                yield(@elements[idx] ||= freeze_child(el))
                 idx += 1
             end
         end
@@ -354,7 +355,7 @@ module Typelib
             idx = 0
             do_each(false) do |el|
                 if el.kind_of?(Typelib::Type)
-                    el = (@elements[idx] ||= el)
+                    el = (@elements[idx] ||= freeze_child(el))
                     el = __element_to_ruby(el)
                 end
 
diff --git a/bindings/ruby/lib/typelib/type.rb b/bindings/ruby/lib/typelib/type.rb
index 30015fe..00b29f4 100644
--- a/bindings/ruby/lib/typelib/type.rb
+++ b/bindings/ruby/lib/typelib/type.rb
@@ -290,10 +290,20 @@ module Typelib
             def to_csv(*args); raise TypeError, "invalidated object" end
         end
 
+        # Module used to extend frozen values
+        module Freezer
+            def zero!; raise TypeError, "frozen object" end
+            def endian_swap!; raise TypeError, "frozen object" end
+            def from_buffer_direct(*args); raise TypeError, "frozen object" end
+            def typelib_from_ruby(*args); raise TypeError, "frozen object" end
+        end
+
         # Call to freeze the object, i.e. to make it readonly
         def freeze
+            apply_changes_from_converted_types
             freeze_children
             @__typelib_frozen = true
+            extend Freezer
             self
         end
 
@@ -740,6 +750,14 @@ module Typelib
         def freeze_children
         end
 
+        # Called internally on the parts of this value that get accessed: they
+        # are readonly if this value is
+        def freeze_child(child)
+            child.freeze if frozen?
+            child
+        end
+        private :freeze_child
+
         def invalidate_children
         end
 
-- 
2.43.0


From 1cff9b179cdff9e92cacc39b136348d45310d40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:35 +0000
Subject: [PATCH 72/99] fix: pointers that were changed still gave the object
 that they pointed to before (Ruby)

---
 bindings/ruby/ext/specialized_types.cc | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/bindings/ruby/ext/specialized_types.cc b/bindings/ruby/ext/specialized_types.cc
index 1594e30..bf67395 100644
--- a/bindings/ruby/ext/specialized_types.cc
+++ b/bindings/ruby/ext/specialized_types.cc
@@ -82,16 +82,23 @@ static VALUE compound_field_set(VALUE self, VALUE name, VALUE newval)
  */
 static VALUE pointer_deference(VALUE self)
 {
-    VALUE pointed_to = rb_iv_get(self, "@points_to");
-    if (!NIL_P(pointed_to))
-        return pointed_to;
-
     Value const& value(rb2cxx::object<Value>(self));
     Indirect const& indirect(static_cast<Indirect const&>(value.getType()));
 
     VALUE registry = value_get_registry(self);
 
     void* ptr_value = *reinterpret_cast<void**>(value.getData());
+
+    // The object this pointer has been created from, unless the pointer has
+    // been changed since. It has no data if it got invalidated
+    VALUE pointed_to = rb_iv_get(self, "@points_to");
+    if (!NIL_P(pointed_to))
+    {
+        void* pointed_data = rb2cxx::object<Value>(pointed_to).getData();
+        if (!pointed_data || pointed_data == ptr_value)
+            return pointed_to;
+    }
+
     if (!ptr_value)
         rb_raise(rb_eArgError, "cannot deference a NULL pointer");
 
-- 
2.43.0


From d01f37ce3b3d88979a0965ee1af06ec85143576c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:28 +0000
Subject: [PATCH 73/99] fix: duplicating a value detached the converted fields
 of the original from the objects that were read (Ruby)

---
 bindings/ruby/lib/typelib/compound_type.rb | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/bindings/ruby/lib/typelib/compound_type.rb b/bindings/ruby/lib/typelib/compound_type.rb
index 89c4b14..e9a91f4 100644
--- a/bindings/ruby/lib/typelib/compound_type.rb
+++ b/bindings/ruby/lib/typelib/compound_type.rb
@@ -102,18 +102,6 @@ module Typelib
                     end
                 end
             end
-
-            def dup
-                new_value = super()
-                for field_name in self.class.converted_fields
-                    converted_value = instance_variable_get("@#{FIELD_NANE_PREFIX}#{field_name}")
-                    if !converted_value.kind_of?(Symbol)
-                        converted_value = converted_value.dup
-                    end
-                    instance_variable_set("@#{FIELD_NANE_PREFIX}#{field_name}", converted_value.dup)
-                end
-                new_value
-            end
         end
 
         # Internal method used to initialize a compound from a hash
-- 
2.43.0


From 792346d766afbf1354008b999e7db54d71eb7e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:28 +0000
Subject: [PATCH 74/99] fix: conversions registered for arrays and containers
 were ignored when their elements are converted (Ruby)

---
 bindings/ruby/lib/typelib/array_type.rb     | 14 ++++++++------
 bindings/ruby/lib/typelib/container_type.rb | 14 ++++++++------
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/bindings/ruby/lib/typelib/array_type.rb b/bindings/ruby/lib/typelib/array_type.rb
index 95482d0..cf040b6 100644
--- a/bindings/ruby/lib/typelib/array_type.rb
+++ b/bindings/ruby/lib/typelib/array_type.rb
@@ -128,13 +128,15 @@ module Typelib
                 #
                 # Note that it is overriden by convertions that are explicitely
                 # defined for this type (i.e. that reference this type by name)
-                convert_to_ruby Array do |value|
-                    # Convertion is done by value#each directly
-                    converted = value.map { |v| v }
-                    def converted.dup
-                        map(&:dup)
+                if !convertion_to_ruby
+                    convert_to_ruby Array do |value|
+                        # Convertion is done by value#each directly
+                        converted = value.map { |v| v }
+                        def converted.dup
+                            map(&:dup)
+                        end
+                        converted
                     end
-                    converted
                 end
             end
 
diff --git a/bindings/ruby/lib/typelib/container_type.rb b/bindings/ruby/lib/typelib/container_type.rb
index fe0c886..747bf0f 100644
--- a/bindings/ruby/lib/typelib/container_type.rb
+++ b/bindings/ruby/lib/typelib/container_type.rb
@@ -220,13 +220,15 @@ module Typelib
                 # Note that it is called before super() so that it gets
                 # overriden by convertions that are explicitely defined for this
                 # type (i.e. that reference this type by name)
-                convert_to_ruby Array do |value|
-                    # Convertion is done by #map
-                    result = DeepCopyArray.new
-                    for v in value
-                        result << v
+                if !convertion_to_ruby
+                    convert_to_ruby Array do |value|
+                        # Convertion is done by #map
+                        result = DeepCopyArray.new
+                        for v in value
+                            result << v
+                        end
+                        result
                     end
-                    result
                 end
             end
 
-- 
2.43.0


From c375bb85c84242d850906260343e8cc7d73ad05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:08 +0000
Subject: [PATCH 75/99] fix: conversions registered for numerics were only
 applied to components that had been accessed before (Ruby)

Numeric types replaced the conversion that was registered for them, as the
one that typelib has for booleans, by the description of the builtin one.
Fields and elements were then given converted only once they had been
accessed as typelib values.
---
 bindings/ruby/lib/typelib/compound_type.rb  | 2 ++
 bindings/ruby/lib/typelib/container_type.rb | 4 +++-
 bindings/ruby/lib/typelib/numeric_type.rb   | 6 +++++-
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/bindings/ruby/lib/typelib/compound_type.rb b/bindings/ruby/lib/typelib/compound_type.rb
index e9a91f4..137ba43 100644
--- a/bindings/ruby/lib/typelib/compound_type.rb
+++ b/bindings/ruby/lib/typelib/compound_type.rb
@@ -445,6 +445,8 @@ module Typelib
                 if value.kind_of?(Typelib::Type)
                     @fields[name] = freeze_child(value)
                     Typelib.to_ruby(value, @field_types[name])
+                elsif @field_types[name].needs_convertion_to_ruby?
+                    Typelib.to_ruby(raw_get(name), @field_types[name])
                 else value
                 end
             end
diff --git a/bindings/ruby/lib/typelib/container_type.rb b/bindings/ruby/lib/typelib/container_type.rb
index 747bf0f..cc4f66c 100644
--- a/bindings/ruby/lib/typelib/container_type.rb
+++ b/bindings/ruby/lib/typelib/container_type.rb
@@ -95,6 +95,8 @@ module Typelib
                     if value.kind_of?(Typelib::Type)
                         @elements[index] = freeze_child(value)
                         __element_to_ruby(value)
+                    elsif element_t.needs_convertion_to_ruby?
+                        __element_to_ruby(raw_get_no_boundary_check(index))
                     else value
                     end
                 end
@@ -355,7 +357,7 @@ module Typelib
             return enum_for(:each) if !block_given?
 
             idx = 0
-            do_each(false) do |el|
+            do_each(element_t.needs_convertion_to_ruby?) do |el|
                 if el.kind_of?(Typelib::Type)
                     el = (@elements[idx] ||= freeze_child(el))
                     el = __element_to_ruby(el)
diff --git a/bindings/ruby/lib/typelib/numeric_type.rb b/bindings/ruby/lib/typelib/numeric_type.rb
index 3b365df..d84dd74 100644
--- a/bindings/ruby/lib/typelib/numeric_type.rb
+++ b/bindings/ruby/lib/typelib/numeric_type.rb
@@ -4,7 +4,11 @@ module Typelib
         def self.subclass_initialize
             super
 
-            if integer?
+            if convertion_to_ruby
+                # Somebody registered a convertion for this type, which has
+                # to be applied also where typelib would convert by itself
+                self.contains_converted_types = false
+            elsif integer?
                 # This is only a hint for the rest of Typelib. The actual
                 # convertion is done internally by Typelib
                 convert_to_ruby(Numeric, recursive: false, builtin: true)
-- 
2.43.0


From 1872fc72b6fbe42edcca04371670f4117709d9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:08 +0000
Subject: [PATCH 76/99] fix: convert_to_ruby ignored its options when given as
 second argument (Ruby)

---
 bindings/ruby/lib/typelib/specializations.rb | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bindings/ruby/lib/typelib/specializations.rb b/bindings/ruby/lib/typelib/specializations.rb
index 5e9854b..e49cfed 100644
--- a/bindings/ruby/lib/typelib/specializations.rb
+++ b/bindings/ruby/lib/typelib/specializations.rb
@@ -102,7 +102,7 @@ module Typelib
         def find(type_model, error_if_ambiguous = true)
             all = find_all(type_model)
             if all.size > 1 && error_if_ambiguous
-                raise ArgumentError, "more than one entry matches #{name}"
+                raise ArgumentError, "more than one entry matches #{type_model.name}"
             else all.first
             end
         end
@@ -305,11 +305,11 @@ module Typelib
     #   end
     def self.convert_to_ruby(typename, ruby_class = nil, options = Hash.new, &block)
         if ruby_class.kind_of?(Hash)
-            ruby_class, options = nil, options
+            ruby_class, options = nil, ruby_class
         end
 
         if ruby_class && !ruby_class.kind_of?(Class)
-            raise ArgumentError, "expected a class as second argument, got #{to}"
+            raise ArgumentError, "expected a class as second argument, got #{ruby_class}"
         end
         convertions_to_ruby.add(typename, Convertion.new(typename, ruby_class, lambda(&block)), options)
     end
-- 
2.43.0


From 68521c7eb33c7320ad248f30045bb4e6929db66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:26 +0000
Subject: [PATCH 77/99] fix: gccxml: name pointers and arrays after the C++
 name of their element, not after a list

---
 bindings/ruby/lib/typelib/gccxml.rb | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bindings/ruby/lib/typelib/gccxml.rb b/bindings/ruby/lib/typelib/gccxml.rb
index bc721a5..a5316c1 100644
--- a/bindings/ruby/lib/typelib/gccxml.rb
+++ b/bindings/ruby/lib/typelib/gccxml.rb
@@ -400,6 +400,11 @@ module Typelib
             end
         end
 
+        # The C++ name of a type, the standard types have none in their metadata
+        def cxxname_of(type)
+            type.metadata.get('cxxname').first || typelib_to_cxx(type.name)
+        end
+
         def resolve_node_typelib_name(id_or_node)
             if parts = resolve_node_name_parts(id_or_node, cxx: false)
                 parts.join("/")
@@ -518,7 +523,7 @@ module Typelib
                 if pointed_to_type = resolve_type_id(xmlnode['type'])
                     pointed_to_name = (id_to_name[id] = "#{pointed_to_type}*")
                     pointer_type = registry.build(pointed_to_name)
-                    pointer_type.metadata.set('cxxname', "#{pointer_type.deference.metadata.get('cxxname')}*")
+                    pointer_type.metadata.set('cxxname', "#{cxxname_of(pointer_type.deference)}*")
                     return pointed_to_name
                 else return ignore(xmlnode)
                 end
@@ -532,7 +537,7 @@ module Typelib
                     end
                     array_typename = (id_to_name[id] = "#{pointed_to_type}[#{size}]")
                     array_type = registry.create_array(pointed_to_type, size)
-                    array_type.metadata.set('cxxname', "#{array_type.deference.metadata.get('cxxname')}[#{size}]")
+                    array_type.metadata.set('cxxname', "#{cxxname_of(array_type.deference)}[#{size}]")
                     return array_typename
                 else return ignore(xmlnode)
                 end
-- 
2.43.0


From 6ef99a40195a10cb5613f92e4bacdbaa7909d63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:26 +0000
Subject: [PATCH 78/99] fix: gccxml: leave out the types that refer to
 themselves instead of failing to load the file

---
 bindings/ruby/lib/typelib/gccxml.rb | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/typelib/gccxml.rb b/bindings/ruby/lib/typelib/gccxml.rb
index a5316c1..59f4bb5 100644
--- a/bindings/ruby/lib/typelib/gccxml.rb
+++ b/bindings/ruby/lib/typelib/gccxml.rb
@@ -173,6 +173,7 @@ module Typelib
 
         def initialize
             @empty_compounds = Set.new
+            @being_defined = Set.new
             @opaques = Set.new
             @id_to_name_parts   = Hash.new
             @id_to_name   = Hash.new
@@ -413,7 +414,7 @@ module Typelib
 
         def resolve_type_id(id)
             id = id.to_str
-            if ignored?(id.to_str)
+            if ignored?(id) || @being_defined.include?(id)
                 nil
             elsif name = id_to_name[id]
                 name
@@ -512,7 +513,21 @@ module Typelib
             end
         end
 
+        # Types that (indirectly) refer to themselves cannot be represented: a
+        # type is not available to the types it is made of
         def resolve_type_definition(xmlnode)
+            id = xmlnode['id']
+            return if @being_defined.include?(id)
+
+            begin
+                @being_defined << id
+                do_resolve_type_definition(xmlnode)
+            ensure
+                @being_defined.delete(id)
+            end
+        end
+
+        def do_resolve_type_definition(xmlnode)
             kind = xmlnode.name
             id   = xmlnode['id']
             if name = id_to_name[id]
-- 
2.43.0


From fd1bf665aecc3367192cc10dcda347938f5fb113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:26 +0000
Subject: [PATCH 79/99] fix: gccxml: load declarations of qualified pointers
 and arrays

---
 bindings/ruby/lib/typelib/gccxml.rb | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/bindings/ruby/lib/typelib/gccxml.rb b/bindings/ruby/lib/typelib/gccxml.rb
index 59f4bb5..0500cb3 100644
--- a/bindings/ruby/lib/typelib/gccxml.rb
+++ b/bindings/ruby/lib/typelib/gccxml.rb
@@ -463,6 +463,11 @@ module Typelib
                 spec << 'volatile'
             end
             if name = resolve_type_id(xmlnode['type'])
+                # These names cannot be qualified
+                if name =~ /[*\]]$/
+                    id_to_name[xmlnode['id']] = name
+                    return nil, name
+                end
                 qualified_name = "#{name} #{spec.join(" ")}"
                 id_to_name[xmlnode['id']] = qualified_name
                 return qualified_name, name
@@ -558,11 +563,8 @@ module Typelib
                 end
             elsif kind == "CvQualifiedType"
                 qualified_name, name = resolve_qualified_type(xmlnode)
-                if qualified_name
-                    registry.alias(qualified_name, name)
-                    return name
-                else return
-                end
+                registry.alias(qualified_name, name) if qualified_name
+                return name
             end
 
             if !(name = resolve_node_typelib_name(xmlnode))
-- 
2.43.0


From bfd83010f66a7ee09a31e043467d7df383fa31fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:26 +0000
Subject: [PATCH 80/99] fix: gccxml: leave out the enumerations that are not
 stored as an int

---
 bindings/ruby/lib/typelib/gccxml.rb | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/bindings/ruby/lib/typelib/gccxml.rb b/bindings/ruby/lib/typelib/gccxml.rb
index 0500cb3..20a7a76 100644
--- a/bindings/ruby/lib/typelib/gccxml.rb
+++ b/bindings/ruby/lib/typelib/gccxml.rb
@@ -743,10 +743,21 @@ module Typelib
                 id_to_name[id] = pointed_to_name
 
             elsif kind == "Enumeration"
+                values = info.enum_values[id].map do |enum_value|
+                    [enum_value["name"], Integer(enum_value['init'])]
+                end
+                # Typelib's enumerations are stored as an int
+                size = xmlnode['size']
+                int_size = [0].pack("i").size * 8
+                int_range = (-(1 << (int_size - 1))...(1 << (int_size - 1)))
+                if size && Integer(size) != int_size
+                    return ignore(xmlnode, "ignoring #{name}, it is not stored as an int")
+                elsif (symbol, value = values.find { |_, v| !int_range.cover?(v) })
+                    return ignore(xmlnode, "ignoring #{name}, #{symbol}=#{value} does not fit in an int")
+                end
+
                 type = registry.create_enum(normalized_name) do |e|
-                    info.enum_values[id].each do |enum_value|
-                        e.add(enum_value["name"], Integer(enum_value['init']))
-                    end
+                    values.each { |symbol, value| e.add(symbol, value) }
                 end
                 type.metadata.set('cxxname', cxxname)
                 if name != normalized_name
-- 
2.43.0


From 63677b9a96d855e95e0ab9c4eb8017af09944864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:26 +0000
Subject: [PATCH 81/99] fix: gccxml: leave out the structures that have
 bit-fields

---
 bindings/ruby/lib/typelib/gccxml.rb | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bindings/ruby/lib/typelib/gccxml.rb b/bindings/ruby/lib/typelib/gccxml.rb
index 20a7a76..5b96762 100644
--- a/bindings/ruby/lib/typelib/gccxml.rb
+++ b/bindings/ruby/lib/typelib/gccxml.rb
@@ -677,6 +677,8 @@ module Typelib
                     field_defs = fields.map do |field|
                         if field['access'] != 'public'
                             return ignore(xmlnode, "ignoring #{name} since its field #{field['name']} is private")
+                        elsif field['bits']
+                            return ignore(xmlnode, "ignoring #{name} since its field #{field['name']} is a bit-field")
                         elsif field_type_name = resolve_type_id(field['type'])
                             [field['name'], field_type_name, Integer(field['offset']) / 8, field['line']]
                         else
-- 
2.43.0


From 65241318bbe3ce584bcb7cce8c87e73ae00358c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:06 +0000
Subject: [PATCH 82/99] fix: gccxml: load vectors of pointers, and leave out
 those of elements that have no definition

---
 bindings/ruby/lib/typelib/gccxml.rb | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bindings/ruby/lib/typelib/gccxml.rb b/bindings/ruby/lib/typelib/gccxml.rb
index 5b96762..28f989a 100644
--- a/bindings/ruby/lib/typelib/gccxml.rb
+++ b/bindings/ruby/lib/typelib/gccxml.rb
@@ -246,6 +246,7 @@ module Typelib
         def self.cxx_to_typelib(name)
             name = name.gsub('::', '/')
             name = name.gsub('> >', '>>')
+            name = name.gsub(/\s+\*/, '*')
 
             tokens = CXX.template_tokenizer(name)
             tokenized_cxx_to_typelib(tokens)
@@ -602,10 +603,9 @@ module Typelib
                     # This is known to Typelib as a container
                     contained_type = template_args[0]
                     if !registry.include?(contained_type)
-                        contained_node = find_node_by_name(contained_type)
+                        contained_node = find_node_by_name(contained_type.sub(/\*+$/, ''))
                         if !contained_node
-                            contained_node = find_node_by_name(contained_type)
-                            raise "Internal error: cannot find definition for #{contained_type}, element of #{name}"
+                            return ignore(xmlnode, "ignoring #{name} as there is no definition for its element type #{contained_type}")
                         end
                         if ignored?(contained_node["id"])
                             return ignore(xmlnode, "ignoring #{name} as its element type #{contained_type} is ignored as well")
-- 
2.43.0


From 690d4a24d03935791389d17fa6f20a3511548d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:06 +0000
Subject: [PATCH 83/99] fix: gccxml: leave out the templates whose name is not
 a valid type name

---
 bindings/ruby/lib/typelib/gccxml.rb | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/bindings/ruby/lib/typelib/gccxml.rb b/bindings/ruby/lib/typelib/gccxml.rb
index 28f989a..7d3f696 100644
--- a/bindings/ruby/lib/typelib/gccxml.rb
+++ b/bindings/ruby/lib/typelib/gccxml.rb
@@ -402,6 +402,17 @@ module Typelib
             end
         end
 
+        # Whether a type can have this name. Only the template arguments might
+        # contain something that is not valid (references, functions, ...)
+        def valid_type_name?(name)
+            if name.include?('<')
+                Typelib::Registry.new(false).create_opaque(name, 1)
+            end
+            true
+        rescue ArgumentError
+            false
+        end
+
         # The C++ name of a type, the standard types have none in their metadata
         def cxxname_of(type)
             type.metadata.get('cxxname').first || typelib_to_cxx(type.name)
@@ -585,6 +596,9 @@ module Typelib
                 # structures. Just ignore it
                 return ignore(xmlnode)
             end
+            if !valid_type_name?(name)
+                return ignore(xmlnode, "ignoring #{name}, this is not a valid type name")
+            end
             cxxname = resolve_node_cxx_name(xmlnode)
 
             normalized_name = normalize_type_name(name)
-- 
2.43.0


From b85f697d3ec5df4bcc2bb9c77e86f472954adee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:06 +0000
Subject: [PATCH 84/99] fix: gccxml: decode the attributes that contain = or
 XML entities

---
 bindings/ruby/lib/typelib/gccxml.rb | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/bindings/ruby/lib/typelib/gccxml.rb b/bindings/ruby/lib/typelib/gccxml.rb
index 7d3f696..c903bfc 100644
--- a/bindings/ruby/lib/typelib/gccxml.rb
+++ b/bindings/ruby/lib/typelib/gccxml.rb
@@ -47,6 +47,9 @@ module Typelib
 
         STORED_TAGS = %w{Namespace Typedef Enumeration Struct Class ArrayType FundamentalType PointerType CvQualifiedType}
 
+        XML_ENTITIES = Hash[
+            '&lt;' => '<', '&gt;' => '>', '&amp;' => '&', '&quot;' => '"', '&apos;' => "'"]
+
         def initialize(required_files)
             @required_files = Hash.new
             required_files.each do |full_path|
@@ -123,11 +126,10 @@ module Typelib
                             tag_start(name, Hash['id' => $1, 'virtual' => '1'])
                         end
                     else
-                        raw_attributes = l.gsub(/&lt;/, "<").gsub(/&gt;/, ">").scan(/\w+="[^"]+"/)
+                        raw_attributes = l.scan(/(\w+)="([^"]+)"/)
                         attributes = Hash.new
-                        raw_attributes.each do |attr|
-                            attr_name, attr_value = attr.split("=")
-                            attributes[attr_name] = attr_value[1..-2]
+                        raw_attributes.each do |attr_name, attr_value|
+                            attributes[attr_name] = attr_value.gsub(/&(?:lt|gt|amp|quot|apos);/, XML_ENTITIES)
                         end
                         tag_start(name, attributes)
                     end
-- 
2.43.0


From 6e27629811719580fb795d4a25e8545c81eac640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:06 +0000
Subject: [PATCH 85/99] fix: gccxml: find the documentation of types in files
 whose name contains a colon

---
 bindings/ruby/lib/typelib/gccxml.rb | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/bindings/ruby/lib/typelib/gccxml.rb b/bindings/ruby/lib/typelib/gccxml.rb
index c903bfc..a81da3d 100644
--- a/bindings/ruby/lib/typelib/gccxml.rb
+++ b/bindings/ruby/lib/typelib/gccxml.rb
@@ -930,9 +930,8 @@ module Typelib
             # have a source file/line
             registry.each do |type|
                 if location = type.metadata.get('source_file_line').first
-                    file, line = location.split(':')
-                    line = Integer(line)
-                    if doc = GCCXMLLoader.parse_cxx_documentation_before(source_file_content(file), line)
+                    file, line = split_location(location)
+                    if line && (doc = GCCXMLLoader.parse_cxx_documentation_before(source_file_content(file), line))
                         type.metadata.set('doc', doc)
                         extract_doc_metadata(type.metadata, doc)
                     end
@@ -940,9 +939,8 @@ module Typelib
                 if type.respond_to?(:field_metadata)
                     type.field_metadata.each do |field_name, md|
                         if location = md.get('source_file_line').first
-                            file, line = location.split(':')
-                            line = Integer(line)
-                            if doc = GCCXMLLoader.parse_cxx_documentation_before(source_file_content(file), line)
+                            file, line = split_location(location)
+                            if line && (doc = GCCXMLLoader.parse_cxx_documentation_before(source_file_content(file), line))
                                 md.set('doc', doc)
                                 extract_doc_metadata(md, doc)
                             end
@@ -968,6 +966,15 @@ module Typelib
             filtered_registry
         end
 
+        # Splits a FILE:LINE specification. The line is nil if there is none
+        def split_location(location)
+            if match = /\A(.*):(\d+)\z/m.match(location)
+                [match[1], Integer(match[2], 10)]
+            else
+                [location, nil]
+            end
+        end
+
         def extract_doc_metadata(metadata, doc)
             meta = doc.split("\n").grep(/^\s*@meta/)
             meta.each do |line|
-- 
2.43.0


From 5350bcb7b9025ea72dea12293e8324ed88b507e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:06 +0000
Subject: [PATCH 86/99] fix: gccxml: do not look for the documentation of the
 first lines at the end of the file

---
 bindings/ruby/lib/typelib/gccxml.rb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/typelib/gccxml.rb b/bindings/ruby/lib/typelib/gccxml.rb
index a81da3d..00b6162 100644
--- a/bindings/ruby/lib/typelib/gccxml.rb
+++ b/bindings/ruby/lib/typelib/gccxml.rb
@@ -846,7 +846,7 @@ module Typelib
             # Lines are given 1-based (as all editors work that way), and we
             # want the line before the definition. Remove two
             line = line - 2
-            while true
+            while line >= 0
                 case l = lines[line]
                 when /^\s*$/
                 when /^\s*(\*|\/\/|\/\*)/
-- 
2.43.0


From b3b028506bfcdc7b570533e27a6dea092e56c758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:46 +0000
Subject: [PATCH 87/99] fix: gccxml: load declarations of qualified templates
 and containers

---
 bindings/ruby/lib/typelib/gccxml.rb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/typelib/gccxml.rb b/bindings/ruby/lib/typelib/gccxml.rb
index 00b6162..0b17b8b 100644
--- a/bindings/ruby/lib/typelib/gccxml.rb
+++ b/bindings/ruby/lib/typelib/gccxml.rb
@@ -478,7 +478,7 @@ module Typelib
             end
             if name = resolve_type_id(xmlnode['type'])
                 # These names cannot be qualified
-                if name =~ /[*\]]$/
+                if name =~ /[*\]>]$/
                     id_to_name[xmlnode['id']] = name
                     return nil, name
                 end
-- 
2.43.0


From e603e9a6d985f5db834c5906fa5f5169d8799ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:46 +0000
Subject: [PATCH 88/99] fix: gccxml: remove the end of all comments from the
 documentation

---
 bindings/ruby/lib/typelib/gccxml.rb | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bindings/ruby/lib/typelib/gccxml.rb b/bindings/ruby/lib/typelib/gccxml.rb
index 0b17b8b..3408134 100644
--- a/bindings/ruby/lib/typelib/gccxml.rb
+++ b/bindings/ruby/lib/typelib/gccxml.rb
@@ -874,8 +874,8 @@ module Typelib
             block = block.map do |l|
                 l[space_count..-1]
             end
-            if last_line = block[0]
-                last_line.gsub!(/\*+\//, '')
+            block.each do |l|
+                l.gsub!(/\*+\//, '') if l
             end
             if !block.empty?
                 block.reverse.join("\n")
-- 
2.43.0


From 828b465a82256f57a7a8f802b2652310b0d5f4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:59 +0000
Subject: [PATCH 89/99] fix: ruby: refuse to write a String through a char*
 instead of writing over all memory

---
 bindings/ruby/ext/strings.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bindings/ruby/ext/strings.cc b/bindings/ruby/ext/strings.cc
index f9b2c79..94bc7af 100644
--- a/bindings/ruby/ext/strings.cc
+++ b/bindings/ruby/ext/strings.cc
@@ -64,6 +64,9 @@ static VALUE value_from_string(VALUE mod, VALUE self, VALUE from, VALUE known_go
     char * buffer;
     string::size_type buffer_size;
     string_buffer_get(value, buffer, buffer_size);
+    // There is no way to know how much memory a char* points to
+    if (buffer_size == string::npos)
+        rb_raise(rb_eTypeError, "Ruby strings can only be converted to char arrays");
 
     string::size_type from_length = RSTRING_LEN(StringValue(from));
     if ((buffer_size - 1) < from_length)
-- 
2.43.0


From 37ce81041063164c049b0c9b3a85d453a6b23d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:28 +0000
Subject: [PATCH 90/99] fix: gccxml: report the file that gccxml refused
 instead of an undefined variable

---
 bindings/ruby/lib/typelib/gccxml.rb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/typelib/gccxml.rb b/bindings/ruby/lib/typelib/gccxml.rb
index 3408134..1900b87 100644
--- a/bindings/ruby/lib/typelib/gccxml.rb
+++ b/bindings/ruby/lib/typelib/gccxml.rb
@@ -1075,7 +1075,7 @@ module Typelib
             Tempfile.open("typelib_gccxml") do |io|
                 cmdline << "-fxml=#{io.path}"
                 unless system(*cmdline)
-                    raise ArgumentError, "gccxml returned an error while parsing #{file}"
+                    raise ArgumentError, "gccxml returned an error while parsing #{composite_file}"
                 end
                 [io.read]
             end
-- 
2.43.0


From 4c1856e370522295aaeaaad7e0f81f1cd4e319dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:46 +0000
Subject: [PATCH 91/99] fix: gccxml: leave out the types that derive from an
 opaque instead of failing to load the file

---
 bindings/ruby/lib/typelib/gccxml.rb | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bindings/ruby/lib/typelib/gccxml.rb b/bindings/ruby/lib/typelib/gccxml.rb
index 1900b87..346f1e7 100644
--- a/bindings/ruby/lib/typelib/gccxml.rb
+++ b/bindings/ruby/lib/typelib/gccxml.rb
@@ -651,6 +651,9 @@ module Typelib
                         end
 
                         base_type = registry.get(base_type_name)
+                        if base_type.opaque?
+                            return ignore(xmlnode, "ignoring #{name}, its base class #{base_type_name} is opaque")
+                        end
                         if child_node['virtual'] != '0'
                             return ignore(xmlnode, "ignoring #{name}, it has virtual base classes")
                         elsif child_node['access'] != 'public'
-- 
2.43.0


From d01e31a0c177f2d9e51d5b8bf32ecfa4397a8dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:46 +0000
Subject: [PATCH 92/99] fix: gccxml: find the real name of opaques that are
 typedefs of typedefs

---
 bindings/ruby/lib/typelib/gccxml.rb | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bindings/ruby/lib/typelib/gccxml.rb b/bindings/ruby/lib/typelib/gccxml.rb
index 346f1e7..6e38728 100644
--- a/bindings/ruby/lib/typelib/gccxml.rb
+++ b/bindings/ruby/lib/typelib/gccxml.rb
@@ -829,6 +829,9 @@ module Typelib
             opaques.dup.each do |opaque_name|
                 if node = find_node_by_name(opaque_name, node_type: 'Typedef')
                     type_node = node_from_id(node["type"].to_s)
+                    while type_node.name == 'Typedef'
+                        type_node = node_from_id(type_node["type"].to_s)
+                    end
                     full_name = resolve_node_typelib_name(type_node)
                     normalized_name = normalize_type_name(full_name)
 
-- 
2.43.0


From 2c6b5d4de8eee71f240a5138e2becc23e908e492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:11 +0000
Subject: [PATCH 93/99] fix: gccxml: load files that declare a template that is
 opaque

---
 bindings/ruby/lib/typelib/gccxml.rb | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/bindings/ruby/lib/typelib/gccxml.rb b/bindings/ruby/lib/typelib/gccxml.rb
index 6e38728..edfefd3 100644
--- a/bindings/ruby/lib/typelib/gccxml.rb
+++ b/bindings/ruby/lib/typelib/gccxml.rb
@@ -606,6 +606,17 @@ module Typelib
             normalized_name = normalize_type_name(name)
             id_to_name[id]  = normalized_name
 
+            if kind != "Typedef" && registry.include?(normalized_name) && registry.get(normalized_name).opaque?
+                # A template that is opaque: its name was not normalized yet
+                type = registry.get(normalized_name)
+                registry.alias(name, type.name)
+                if normalized_name == type.name
+                    set_source_file(type, xmlnode)
+                    type.metadata.set('cxxname', cxxname)
+                end
+                return id_to_name[id] = type.name
+            end
+
             access_specifier = xmlnode['access']
             if access_specifier && (access_specifier != 'public')
                 return ignore(xmlnode, "ignoring #{name} as it has a non-public access specifier: #{access_specifier}")
-- 
2.43.0


From 524d58860d969e1e109c09eadf966d5b0afede04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:41 +0000
Subject: [PATCH 94/99] fix: clang: give the include paths to the importer

---
 bindings/ruby/lib/typelib/clang.rb | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bindings/ruby/lib/typelib/clang.rb b/bindings/ruby/lib/typelib/clang.rb
index 5a7d732..135e3d2 100644
--- a/bindings/ruby/lib/typelib/clang.rb
+++ b/bindings/ruby/lib/typelib/clang.rb
@@ -23,8 +23,7 @@ module Typelib
                 end
             end
 
-            include_dirs = options[:include_paths] || []
-            include_path = include_dirs.map { |d| "-I#{d}" }
+            include_path = include_paths.map { |d| "-I#{d}" }
             defines = options[:define] || []
             #add -D to the defines
             defines = defines.map { |d| "-D#{d}" }
-- 
2.43.0


From c8d5cb840d10ece2c0ede180ed9400cda75fa0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:41 +0000
Subject: [PATCH 95/99] fix: clang: preprocess files without options, as the
 other C++ loaders do

---
 bindings/ruby/lib/typelib/clang.rb | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bindings/ruby/lib/typelib/clang.rb b/bindings/ruby/lib/typelib/clang.rb
index 135e3d2..9e461ff 100644
--- a/bindings/ruby/lib/typelib/clang.rb
+++ b/bindings/ruby/lib/typelib/clang.rb
@@ -99,9 +99,9 @@ module Typelib
         # is needed by orogen to get the resolved top-level include-files. once
         # this is done by the clang-based importer the preprocessing can be
         # removed.
-        def self.preprocess(files, kind, options)
-            includes = options[:include].map { |v| "-I#{v}" }
-            defines  = options[:define].map { |v| "-D#{v}" }
+        def self.preprocess(files, kind, include: [], include_paths: [], define: [], **)
+            includes = (include + include_paths).map { |v| "-I#{v}" }
+            defines  = define.map { |v| "-D#{v}" }
 
             # create a tempfile where all files used in the typekit are just
             # "dummy-included" to create one big compile unit. this stems from
-- 
2.43.0


From f44a53251ad9280cd64441e662556ea890304a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:46 +0000
Subject: [PATCH 96/99] fix: ruby: options that are a hash crashed the
 interpreter

---
 bindings/ruby/lib/typelib/registry.rb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/typelib/registry.rb b/bindings/ruby/lib/typelib/registry.rb
index 5f3a8bd..638dd48 100644
--- a/bindings/ruby/lib/typelib/registry.rb
+++ b/bindings/ruby/lib/typelib/registry.rb
@@ -139,7 +139,7 @@ module Typelib
                         [ opt[0].to_s, opt[1].map { |child| child.to_s } ]
                     end
                 elsif opt[1].kind_of?(Hash)
-                    [ opt[0].to_s, format_options(opt[1]) ]
+                    [ opt[0].to_s, [format_options(opt[1])] ]
                 else
                     [ opt[0].to_s, opt[1].to_s ]
                 end
-- 
2.43.0


From a1fa12e14d868ce65fdc848ae0da430c54c991a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:46 +0000
Subject: [PATCH 97/99] fix: ruby: Registry.import refused options with Ruby 3

---
 bindings/ruby/lib/typelib/registry.rb | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bindings/ruby/lib/typelib/registry.rb b/bindings/ruby/lib/typelib/registry.rb
index 638dd48..bae5e90 100644
--- a/bindings/ruby/lib/typelib/registry.rb
+++ b/bindings/ruby/lib/typelib/registry.rb
@@ -151,9 +151,9 @@ module Typelib
         #   registry.import(args)
         #
         # See Registry#import
-        def self.import(*args)
+        def self.import(*args, **options)
             registry = Registry.new
-            registry.import(*args)
+            registry.import(*args, **options)
             registry
         end
 
-- 
2.43.0


From 0654073f9f948096cfca2f0b7fc6c5b57b9bb904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:46 +0000
Subject: [PATCH 98/99] fix: ruby: TYPELIB_RUBY_PLUGIN_PATH made creating
 registries fail with Ruby 3.2

---
 bindings/ruby/lib/typelib.rb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/typelib.rb b/bindings/ruby/lib/typelib.rb
index e01abfe..8608758 100644
--- a/bindings/ruby/lib/typelib.rb
+++ b/bindings/ruby/lib/typelib.rb
@@ -162,7 +162,7 @@ module Typelib
 
         ENV['TYPELIB_RUBY_PLUGIN_PATH'].split(':').each do |dir|
             specific_file = File.join(dir, "typelib_plugin.rb")
-            if File.exists?(specific_file)
+            if File.exist?(specific_file)
                 if require(specific_file)
                     STDERR.puts "WARN: integrating typelib plugin using the TYPELIB_RUBY_PLUGIN_PATH environment variable is deprecated"
                     STDERR.puts "WARN: just put a file called typelib_plugin.rb into a subfolder from the RUBYLIB (e.g. base/typelib_plugin.rb)"
-- 
2.43.0


From 66d1ffaddfc79eb9697a1fd63e45a1a72be23a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:23 +0000
Subject: [PATCH 99/99] fix: ruby: names were looked up in other namespaces
 when loading C++ types

find_node_by_name took the first declaration with the basename for names that
are in the global namespace, whatever the namespace it is in, and
resolve_namespace_of started at the first namespace of this name even if
nested in another one.
---
 bindings/ruby/lib/typelib/gccxml.rb | 33 ++++++++++++++++-------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/bindings/ruby/lib/typelib/gccxml.rb b/bindings/ruby/lib/typelib/gccxml.rb
index edfefd3..5f3752b 100644
--- a/bindings/ruby/lib/typelib/gccxml.rb
+++ b/bindings/ruby/lib/typelib/gccxml.rb
@@ -353,11 +353,7 @@ module Typelib
                 break if ns == '/'
                 ns   = ns[0..-2]
                 candidates = info.name_to_nodes[ns].find_all { |n| NAMESPACE_NODE_TYPES.include?(n.name) }
-                if !context
-                    context = candidates.to_a.first
-                else
-                    context = candidates.find { |node| node['context'].to_s == context }
-                end
+                context = candidates.find { |node| in_context?(node, context) }
                 if !context
                     break
                 else context = context["id"].to_s
@@ -366,6 +362,17 @@ module Typelib
             return name, context
         end
 
+        # Whether a node is defined in the node whose ID is context, nil being
+        # the global namespace
+        def in_context?(node, context)
+            node_context = node['context']
+            if context
+                node_context.to_s == context
+            else
+                !node_context || !(parent = node_from_id(node_context)) || (parent['name'] == '::')
+            end
+        end
+
         def resolve_node_name_parts(id_or_node, cxx: false)
             node = if id_or_node.respond_to?(:to_str)
                        info.id_to_node[id_or_node]
@@ -805,16 +812,12 @@ module Typelib
         end
 
         def find_node_by_name(typename, node_type: nil)
-            if node = info.name_to_nodes[typename].first
-                return node if !node_type || (node.name == node_type)
-            else
-                basename, context = resolve_namespace_of(typename)
-                return if !context
-                info.name_to_nodes[basename].
-                    find do |node|
-                        (node['context'].to_s == context) &&
-                            (!node_type || (node.name == node_type))
-                    end
+            basename, context = resolve_namespace_of(typename)
+            return if !context && (basename != typename)
+
+            info.name_to_nodes[basename].find do |node|
+                in_context?(node, context) &&
+                    (!node_type || (node.name == node_type))
             end
         end
 
-- 
2.43.0

