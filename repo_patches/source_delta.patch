From cab68d01bbe36702c3b93f71623a663100ad6814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:50 +0000
Subject: [PATCH 01/11] fix: remove a source decoded from an incoming repair
 from the other repairs

When an incoming repair had only one unknown source, the entry of this source
was erased from the missing sources before add_source_recursive() could use it
to remove the source from the other repairs which reference it. These repairs
thus kept encoding it, and sources with wrong sizes and contents were decoded
from them later on.
---
 netcode/detail/decoder.cc | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/netcode/detail/decoder.cc b/netcode/detail/decoder.cc
index 1fd59fb..3ec31cb 100644
--- a/netcode/detail/decoder.cc
+++ b/netcode/detail/decoder.cc
@@ -136,16 +136,13 @@ decoder::operator()(decoder_repair&& incoming_r)
     // Create missing source.
     auto src = create_source_from_repair(r);
 
-    // Source is no longer missing.
-    m_missing_sources.erase(src.id());
-
-    // This repair is no longer needed.
+    // This repair is no longer needed. Its source remains missing for the other repairs that
+    // reference it, until add_source_recursive() removes it from them.
+    m_missing_sources.find(src.id())->second.erase(r_cit);
     m_repairs.erase(r_cit);
 
     // This newly decode source might trigger the decoding of several other sources.
     add_source_recursive(std::move(src));
-
-    return;
   }
 
   attempt_full_decoding();
-- 
2.43.0


From b4dc96e30db73137ec3a4df6d626c05b24c9ab2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:50 +0000
Subject: [PATCH 02/11] fix: decode repairs with a single source even if other
 repairs reference it

A repair which encodes only one source was not used if this source was
referenced by other repairs. When this source was then received, the repair was
emptied. Furthermore, the loop went on with an iterator on a missing source
possibly erased by the recursive call.
---
 netcode/detail/decoder.cc | 65 ++++++++++++++++++---------------------
 1 file changed, 30 insertions(+), 35 deletions(-)

diff --git a/netcode/detail/decoder.cc b/netcode/detail/decoder.cc
index 3ec31cb..bcaad1a 100644
--- a/netcode/detail/decoder.cc
+++ b/netcode/detail/decoder.cc
@@ -266,7 +266,15 @@ decoder::add_source_recursive(decoder_source&& src)
     for (auto r_cit : search->second)
     {
       auto& r = r_cit->second;
-      remove_source_from_repair(src, r);
+      if (r.source_ids().size() == 1)
+      {
+        // This repair encodes only this source, there's nothing else to decode from it.
+        m_repairs.erase(r_cit);
+      }
+      else
+      {
+        remove_source_from_repair(src, r);
+      }
     }
 
     // It's no longer a missing source.
@@ -275,49 +283,36 @@ decoder::add_source_recursive(decoder_source&& src)
 
   // Now, look for repairs that encodes only 1 source. When one is found, the corresponding
   // encoded source is decoded and the repair is erased.
-  for ( auto miss_cit = m_missing_sources.begin(), miss_end = m_missing_sources.end()
-      ; miss_cit != miss_end;)
+  for (auto r_cit = m_repairs.begin(); r_cit != m_repairs.end();)
   {
-    const auto& repairs_cits = miss_cit->second;
-    // Does this missing source is referenced by only one repair?
-    if (repairs_cits.size() == 1)
-    {
-      // Some shortcuts.
-      const auto r_cit = *repairs_cits.begin();
-      const auto& r = r_cit->second;
+    const auto& r = r_cit->second;
 
-      // Does this repair encode only 1 source?
-      if (r.source_ids().size() == 1)
-      {
-        // Check that this source wasn't decoded in the past.
-        assert(m_last_id ? *r.source_ids().begin() >= *m_last_id : true);
-        // Check that this source doesn't belong to the set of current sources.
-        assert(not m_sources.count(*r.source_ids().begin()));
+    // Does this repair encode only 1 source?
+    if (r.source_ids().size() == 1)
+    {
+      // Check that this source wasn't decoded in the past.
+      assert(m_last_id ? *r.source_ids().begin() >= *m_last_id : true);
+      // Check that this source doesn't belong to the set of current sources.
+      assert(not m_sources.count(*r.source_ids().begin()));
 
-        // This missing source is referenced by only 1 repair and this repair references only 1
-        // missing source. Thus, we can reconstruct the missing source.
-        auto decoded_src = create_source_from_repair(r);
+      // This repair references only 1 missing source. Thus, we can reconstruct the missing source.
+      auto decoded_src = create_source_from_repair(r);
 
-        // We can erase this repair.
-        m_repairs.erase(r_cit);
+      // We can erase this repair. The source remains missing for the other repairs that reference
+      // it, until the following recursive call removes it from them.
+      m_missing_sources.find(decoded_src.id())->second.erase(r_cit);
+      m_repairs.erase(r_cit);
 
-        // It's no longer a missing source.
-        miss_cit = m_missing_sources.erase(miss_cit);
+      // This newly decoded source might trigger the decoding of other sources.
+      add_source_recursive(std::move(decoded_src));
 
-        // This newly decoded source might trigger the decoding of other sources.
-        add_source_recursive(std::move(decoded_src));
-      }
-      else
-      {
-        // This repair encodes too much sources, other sources are needed to reconstruct *miss_cit.
-        // Try next missing source.
-        ++miss_cit;
-      }
+      // Any repair might have been erased by the recursive call.
+      r_cit = m_repairs.begin();
     }
     else
     {
-      // This missing source is referenced by multiple repairs. Try next missing source.
-      ++miss_cit;
+      // This repair encodes too much sources, other sources are needed. Try next repair.
+      ++r_cit;
     }
   }
 
-- 
2.43.0


From db5b37e6f582aaf90d889075c2838c02fecb9244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:16 +0000
Subject: [PATCH 03/11] fix: give in order a source received before the ones it
 permits to decode

In in-order mode, a received source was put in the set of sources waiting for
older ones only after the recursive decoding it triggers. If the source just
before it was decoded this way, it was never given to the data handler.
---
 netcode/detail/decoder.cc | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/netcode/detail/decoder.cc b/netcode/detail/decoder.cc
index bcaad1a..098be39 100644
--- a/netcode/detail/decoder.cc
+++ b/netcode/detail/decoder.cc
@@ -281,6 +281,17 @@ decoder::add_source_recursive(decoder_source&& src)
     m_missing_sources.erase(search);
   }
 
+  // Insert-move this new source in the set of known sources.
+  const auto src_id = src.id(); // to force evaluation order in the following call.
+  const auto insertion = m_sources.emplace(src_id, std::move(src));
+  assert(insertion.second && "source already added");
+
+  if (m_in_order and insertion.first->second.id() > m_first_missing_source_in_order)
+  {
+    // We can't send the current source as there are some older sources which have not been sent.
+    m_ordered_sources.emplace(insertion.first->second.id(), &insertion.first->second);
+  }
+
   // Now, look for repairs that encodes only 1 source. When one is found, the corresponding
   // encoded source is decoded and the repair is erased.
   for (auto r_cit = m_repairs.begin(); r_cit != m_repairs.end();)
@@ -315,17 +326,6 @@ decoder::add_source_recursive(decoder_source&& src)
       ++r_cit;
     }
   }
-
-  // Insert-move this new source in the set of known sources.
-  const auto src_id = src.id(); // to force evaluation order in the following call.
-  const auto insertion = m_sources.emplace(src_id, std::move(src));
-  assert(insertion.second && "source already added");
-
-  if (m_in_order and insertion.first->second.id() > m_first_missing_source_in_order)
-  {
-    // We can't send the current source as there are some older sources which have not been sent.
-    m_ordered_sources.emplace(insertion.first->second.id(), &insertion.first->second);
-  }
 }
 
 /*------------------------------------------------------------------------------------------------*/
-- 
2.43.0


From ee670f0d559b67f83cf443ba55cf17b5e0faa58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:16 +0000
Subject: [PATCH 04/11] fix: drop repairs which encode outdated sources

A delayed repair whose first source was outdated, but not its last one, moved
the last identifier back: sources that had been given and erased were given
again, and in in-order mode older sources were given after newer ones.
---
 netcode/detail/decoder.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/netcode/detail/decoder.cc b/netcode/detail/decoder.cc
index 098be39..e793540 100644
--- a/netcode/detail/decoder.cc
+++ b/netcode/detail/decoder.cc
@@ -56,10 +56,10 @@ decoder::operator()(decoder_repair&& incoming_r)
 {
   assert(not incoming_r.source_ids().empty());
 
-  const auto last_id_in_source_ids = *(incoming_r.source_ids().end() - 1);
-  if (m_last_id and last_id_in_source_ids < *m_last_id)
+  const auto first_id_in_source_ids = *incoming_r.source_ids().begin();
+  if (m_last_id and first_id_in_source_ids < *m_last_id)
   {
-    // It's a repair that provide outdated informations, drop it.
+    // It's a repair that encodes outdated sources, which may have been erased, drop it.
     return;
   }
 
@@ -72,7 +72,7 @@ decoder::operator()(decoder_repair&& incoming_r)
   // Remove sources with an id strictly less than the smallest the current repair encodes.
   // Remove repairs which encodes sources with an id smaller than the smallest the current repair
   // encodes.
-  drop_outdated(*incoming_r.source_ids().begin());
+  drop_outdated(first_id_in_source_ids);
 
   // Check if incoming_r is useless. Indeed, if all sources it references were correctly
   // received, then it's useless to remove them from this repair, which is a costly operation.
-- 
2.43.0


From 4179b79114e0a00e96482b5c36b40c7b727cca47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:16 +0000
Subject: [PATCH 05/11] fix: drop incoming repairs without sources

The list of sources of a repair comes from the network. When empty, reading its
first element is undefined behavior.
---
 netcode/detail/decoder.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/netcode/detail/decoder.cc b/netcode/detail/decoder.cc
index e793540..aa1eac7 100644
--- a/netcode/detail/decoder.cc
+++ b/netcode/detail/decoder.cc
@@ -54,7 +54,11 @@ decoder::operator()(decoder_source&& src)
 void
 decoder::operator()(decoder_repair&& incoming_r)
 {
-  assert(not incoming_r.source_ids().empty());
+  if (incoming_r.source_ids().empty())
+  {
+    // A malformed repair which doesn't encode anything, drop it.
+    return;
+  }
 
   const auto first_id_in_source_ids = *incoming_r.source_ids().begin();
   if (m_last_id and first_id_in_source_ids < *m_last_id)
-- 
2.43.0


From 5f3722004abfb27a09942ff89cbd2b07f7b9d38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:03 +0000
Subject: [PATCH 06/11] fix: forget missing sources which are no longer
 referenced by a repair

When a repair was dropped (outdated, or faulty after a failed inversion), the
missing sources it was the only one to reference were kept: a full decoding of
the remaining ones was then delayed or impossible. Conversely, when outdated
missing sources are dropped there can be more repairs than missing sources, in
which case some lines of the matrix of coefficients were left uninitialized.
---
 netcode/detail/decoder.cc | 45 ++++++++++++++++++++++++++++-----------
 netcode/detail/decoder.hh |  6 ++++++
 2 files changed, 39 insertions(+), 12 deletions(-)

diff --git a/netcode/detail/decoder.cc b/netcode/detail/decoder.cc
index aa1eac7..f6fd693 100644
--- a/netcode/detail/decoder.cc
+++ b/netcode/detail/decoder.cc
@@ -334,6 +334,28 @@ decoder::add_source_recursive(decoder_source&& src)
 
 /*------------------------------------------------------------------------------------------------*/
 
+decoder::repairs_set_type::iterator
+decoder::remove_repair(repairs_set_type::iterator r_cit)
+noexcept
+{
+  // Remove repair from missing sources that reference it.
+  for (const auto src_id : r_cit->second.source_ids())
+  {
+    const auto search = m_missing_sources.find(src_id);
+    search->second.erase(r_cit);
+    if (search->second.empty())
+    {
+      // No other repair references this missing source.
+      m_missing_sources.erase(search);
+    }
+  }
+
+  // We can now effectively remove the repair.
+  return m_repairs.erase(r_cit);
+}
+
+/*------------------------------------------------------------------------------------------------*/
+
 void
 decoder::drop_outdated(std::uint32_t id)
 noexcept
@@ -351,11 +373,7 @@ noexcept
     // longer useful.
     if (id > *r.source_ids().begin())
     {
-      for (const auto src_id : r.source_ids())
-      {
-        m_missing_sources.find(src_id)->second.erase(cit);
-      }
-      cit = m_repairs.erase(cit);
+      cit = remove_repair(cit);
     }
     else
     {
@@ -419,6 +437,12 @@ decoder::attempt_full_decoding()
     return;
   }
 
+  // When some missing sources became outdated, there can be more repairs than missing sources.
+  while (m_repairs.size() > m_missing_sources.size())
+  {
+    remove_repair(std::prev(m_repairs.end()));
+  }
+
   assert(m_missing_sources.size() == m_repairs.size() && "More repairs than missing sources");
   assert(m_missing_sources.size() > 1 && "Trying to create a matrix for only one missing source.");
 
@@ -452,14 +476,11 @@ decoder::attempt_full_decoding()
     using difference_type = std::iterator_traits<decltype(r_cit)>::difference_type;
     std::advance(r_cit, static_cast<difference_type>(*r_col));
 
-    // Remove repair from missing sources that reference it.
-    for (const auto src : r_cit->second.source_ids())
-    {
-      m_missing_sources[src].erase(r_cit);
-    }
+    remove_repair(r_cit);
 
-    // We can now effectively remove the repair.
-    m_repairs.erase(r_cit);
+    // Some missing sources may have been referenced only by this repair. In this case, the
+    // remaining repairs may be sufficient to decode the remaining missing sources.
+    attempt_full_decoding();
     return;
   }
 
diff --git a/netcode/detail/decoder.hh b/netcode/detail/decoder.hh
index 48987a8..b2ae95b 100644
--- a/netcode/detail/decoder.hh
+++ b/netcode/detail/decoder.hh
@@ -114,6 +114,12 @@ private:
   void
   add_source_recursive(decoder_source&& src);
 
+  /// @brief Remove a repair, as well as the missing sources referenced only by this repair.
+  /// @return The iterator following the removed repair.
+  repairs_set_type::iterator
+  remove_repair(repairs_set_type::iterator r_cit)
+  noexcept;
+
   /// @brief Drop outdated sources and repairs.
   /// @param id The oldest id to keep. 
   ///
-- 
2.43.0


From 0411e7e409a669bc61d53b492293376c08adbca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:38 +0000
Subject: [PATCH 07/11] fix: bound the sizes deduced from malformed packets

A source larger than a repair which references it made the decoder write beyond
the symbol of this repair; the size of a decoded source could be larger than
the symbol it is decoded from; and gf_complete aborts when asked to process a
number of bytes which is not a multiple of the words of the field. These sizes
come from the network.
---
 netcode/detail/decoder.cc | 22 ++++++++++++++++------
 netcode/detail/decoder.hh |  8 ++++++++
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/netcode/detail/decoder.cc b/netcode/detail/decoder.cc
index f6fd693..fd82574 100644
--- a/netcode/detail/decoder.cc
+++ b/netcode/detail/decoder.cc
@@ -1,4 +1,4 @@
-#include <algorithm>  // all_of
+#include <algorithm>  // all_of, min
 #include <cassert>
 #include <vector>
 
@@ -154,6 +154,17 @@ decoder::operator()(decoder_repair&& incoming_r)
 
 /*------------------------------------------------------------------------------------------------*/
 
+std::uint16_t
+decoder::usable_size(std::uint16_t src_sz, const decoder_repair& r)
+const noexcept
+{
+  const auto sz = std::min(src_sz, static_cast<std::uint16_t>(r.symbol_size()));
+  // The Galois field only processes whole words.
+  return m_gf.size() > 8 ? static_cast<std::uint16_t>(sz - sz % (m_gf.size() / 8)) : sz;
+}
+
+/*------------------------------------------------------------------------------------------------*/
+
 decoder_source
 decoder::create_source_from_repair(const decoder_repair& r)
 noexcept
@@ -165,7 +176,7 @@ noexcept
   const auto inv = m_gf.invert(m_gf.coefficient(r.id(), src_id));
 
   // Reconstruct size.
-  const auto src_sz = m_gf.multiply_size(r.encoded_size(), inv);
+  const auto src_sz = usable_size(m_gf.multiply_size(r.encoded_size(), inv), r);
 
   // The source that will be reconstructed.
   auto src = decoder_source{src_id, packet(src_sz + packet::alignment), src_sz};
@@ -409,7 +420,6 @@ decoder::remove_source_data_from_repair(const decoder_source& src, decoder_repai
 noexcept
 {
   assert(r.source_ids().size() > 1 && "Repair encodes only one source");
-  assert(src.symbol_size() <= r.symbol_size());
 
   const auto coeff = m_gf.coefficient(r.id(), src.id());
 
@@ -418,7 +428,7 @@ noexcept
     = static_cast<std::uint16_t>(m_gf.multiply_size(src.symbol_size(), coeff) ^ r.encoded_size());
 
   // Remove symbol.
-  m_gf.multiply_add(src.symbol(), r.symbol(), src.symbol_size(), coeff);
+  m_gf.multiply_add(src.symbol(), r.symbol(), usable_size(src.symbol_size(), r), coeff);
 }
 
 /*------------------------------------------------------------------------------------------------*/
@@ -537,7 +547,7 @@ decoder::attempt_full_decoding()
     // Repair's buffer might be smaller than the size of the source to decode, or it could be
     // the opposite situation. Thus, we need to make sure that we only read the right number of
     // bytes.
-    auto sz = std::min(src_sz, static_cast<std::uint16_t>(m_index[repair_row]->symbol_size()));
+    auto sz = usable_size(src_sz, *m_index[repair_row]);
     m_gf.multiply(m_index[repair_row]->symbol(), src.symbol(), sz, coeff);
 
     for (++repair_row; repair_row < m_inv.dimension(); ++repair_row)
@@ -545,7 +555,7 @@ decoder::attempt_full_decoding()
       coeff = m_inv(repair_row, src_col);
       if (coeff != 0)
       {
-        sz = std::min(src_sz, static_cast<std::uint16_t>(m_index[repair_row]->symbol_size()));
+        sz = usable_size(src_sz, *m_index[repair_row]);
         m_gf.multiply_add(m_index[repair_row]->symbol(), src.symbol(), sz, coeff);
       }
     }
diff --git a/netcode/detail/decoder.hh b/netcode/detail/decoder.hh
index b2ae95b..115ca94 100644
--- a/netcode/detail/decoder.hh
+++ b/netcode/detail/decoder.hh
@@ -114,6 +114,14 @@ private:
   void
   add_source_recursive(decoder_source&& src);
 
+  /// @brief Get how many bytes of a source of size @p src_sz can be processed with a repair.
+  ///
+  /// Sizes come from the network: a malformed packet could lead to a source larger than a repair
+  /// that encodes it, or to a source whose size is not a multiple of the words of the Galois field.
+  std::uint16_t
+  usable_size(std::uint16_t src_sz, const decoder_repair& r)
+  const noexcept;
+
   /// @brief Remove a repair, as well as the missing sources referenced only by this repair.
   /// @return The iterator following the removed repair.
   repairs_set_type::iterator
-- 
2.43.0


From 364c91da33b954d8ffb5c307ccd2094bce71871e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:02 +0000
Subject: [PATCH 08/11] fix: respect the window size when it is reduced

The oldest source was removed only when the number of sources was exactly the
window size. When set_window_size() was called with a value smaller than the
current number of sources, the window grew without limit.
---
 netcode/encoder.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/netcode/encoder.hh b/netcode/encoder.hh
index 7c553fe..58cde03 100644
--- a/netcode/encoder.hh
+++ b/netcode/encoder.hh
@@ -255,7 +255,8 @@ private:
   void
   commit_impl(data&& d)
   {
-    if (m_sources.size() == m_window_size)
+    // The window size may have been reduced since the last added data.
+    while (m_sources.size() >= m_window_size)
     {
       m_sources.pop_front();
     }
-- 
2.43.0


From f0aa1ee6dc762b8affa278baf2ea112ad41586e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:02 +0000
Subject: [PATCH 09/11] fix: write the symbol of a repair only once

The symbol of a repair and its size were written a second time at the end of
the packet. These bytes are never read: it doubled the size of repairs, and the
number of read bytes returned by the decoder was not the size of the packet.
---
 netcode/detail/packetizer.hh | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/netcode/detail/packetizer.hh b/netcode/detail/packetizer.hh
index 98e7ad6..eb13943 100644
--- a/netcode/detail/packetizer.hh
+++ b/netcode/detail/packetizer.hh
@@ -111,12 +111,6 @@ public:
     // Write encoded size.
     write<std::uint16_t>(r.encoded_size());
 
-    // Write size of the repair symbol.
-    write<std::uint16_t>(r.symbol().size());
-
-    // Write repair symbol.
-    write(r.symbol().data(), r.symbol().size());
-
     // End of data.
     mark_end();
   }
-- 
2.43.0


From 6ac9bba129aab0e31a159824c37c05f3204e4b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:02 +0000
Subject: [PATCH 10/11] fix: terminate error messages of the C interface, don't
 leave them dangling

The message was not null-terminated, was freed with delete instead of delete[],
and was left dangling after an unknown exception.
---
 netcode/c/detail/check_error.hh | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/netcode/c/detail/check_error.hh b/netcode/c/detail/check_error.hh
index defe2ce..a2fe83e 100644
--- a/netcode/c/detail/check_error.hh
+++ b/netcode/c/detail/check_error.hh
@@ -47,18 +47,19 @@ noexcept
   {
     error->type = ntc_unknown_error;
     const auto sz = std::strlen(e.what());
-    delete error->message;
-    error->message = new (std::nothrow) char[sz];
+    delete[] error->message;
+    error->message = new (std::nothrow) char[sz + 1];
     if (error->message)
     {
-      std::copy_n(e.what(), sz, error->message);
+      std::copy_n(e.what(), sz + 1 /* with the terminating null character */, error->message);
     }
   }
 
   catch (...)
   {
     error->type = ntc_unknown_error;
-    delete error->message;
+    delete[] error->message;
+    error->message = nullptr;
   }
 
   // Return the default value of the type returned by fn when an error occurs.
-- 
2.43.0


From fd40bec1138a8f1076ea8e4b77d1067a4299ca01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:45 +0000
Subject: [PATCH 11/11] fix: attempt a full decoding after a useless repair
 dropped outdated sources

A repair all of whose sources are known makes older sources outdated. The unknown
ones among them are forgotten, and the repairs still held may then be as many as
the unknown sources left: nothing decoded them until another packet arrived.
---
 netcode/detail/decoder.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/netcode/detail/decoder.cc b/netcode/detail/decoder.cc
index fd82574..f01bf0c 100644
--- a/netcode/detail/decoder.cc
+++ b/netcode/detail/decoder.cc
@@ -89,6 +89,10 @@ decoder::operator()(decoder_repair&& incoming_r)
   {
     // Drop repair.
     ++m_nb_useless_repairs;
+
+    // Outdated missing sources may have been dropped. In this case, the held repairs may now be
+    // sufficient to decode the remaining missing sources.
+    attempt_full_decoding();
     return;
   }
 
-- 
2.43.0

