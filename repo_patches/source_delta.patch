From 7b2bf332a77d9a65781b7ea7fd35cffde375430e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:35 +0000
Subject: [PATCH 01/22] fix: don't send the symbol of a repair twice

write_repair() appended the size and the bytes of the symbol a second time after
the encoded size. read_repair() doesn't expect them: each repair was twice as
large as needed and the number of bytes it reports wasn't the size of the packet.
---
 netcode/detail/packetizer.hh | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/netcode/detail/packetizer.hh b/netcode/detail/packetizer.hh
index 98e7ad6..eb13943 100644
--- a/netcode/detail/packetizer.hh
+++ b/netcode/detail/packetizer.hh
@@ -111,12 +111,6 @@ public:
     // Write encoded size.
     write<std::uint16_t>(r.encoded_size());
 
-    // Write size of the repair symbol.
-    write<std::uint16_t>(r.symbol().size());
-
-    // Write repair symbol.
-    write(r.symbol().data(), r.symbol().size());
-
     // End of data.
     mark_end();
   }
-- 
2.43.0


From 310db0415993f78bc1a4d9fd130246d318c9eae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:49 +0000
Subject: [PATCH 02/22] fix: keep all the bits of a repair's encoded size

With a Galois field of 32 bits the product of a size and a coefficient takes
32 bits, but only 16 were kept and sent: the size of a source rebuilt from a
repair was wrong and memory was read beyond the repair's symbol.
The 16 higher bits now follow the 16 lower ones in a repair; fields of 4, 8 and
16 bits don't use them.
---
 netcode/detail/decoder.cc      | 12 +++++-------
 netcode/detail/encoder.cc      |  4 +---
 netcode/detail/galois_field.hh | 15 ++++++++++-----
 netcode/detail/packetizer.hh   | 11 +++++++----
 netcode/detail/repair.hh       | 16 ++++++++--------
 5 files changed, 31 insertions(+), 27 deletions(-)

diff --git a/netcode/detail/decoder.cc b/netcode/detail/decoder.cc
index 1fd59fb..e528438 100644
--- a/netcode/detail/decoder.cc
+++ b/netcode/detail/decoder.cc
@@ -164,7 +164,7 @@ noexcept
   const auto inv = m_gf.invert(m_gf.coefficient(r.id(), src_id));
 
   // Reconstruct size.
-  const auto src_sz = m_gf.multiply_size(r.encoded_size(), inv);
+  const auto src_sz = static_cast<std::uint16_t>(m_gf.multiply_size(r.encoded_size(), inv));
 
   // The source that will be reconstructed.
   auto src = decoder_source{src_id, packet(src_sz + packet::alignment), src_sz};
@@ -400,8 +400,7 @@ noexcept
   const auto coeff = m_gf.coefficient(r.id(), src.id());
 
   // Remove source size.
-  r.encoded_size()
-    = static_cast<std::uint16_t>(m_gf.multiply_size(src.symbol_size(), coeff) ^ r.encoded_size());
+  r.encoded_size() ^= m_gf.multiply_size(src.symbol_size(), coeff);
 
   // Remove symbol.
   m_gf.multiply_add(src.symbol(), r.symbol(), src.symbol_size(), coeff);
@@ -483,17 +482,16 @@ decoder::attempt_full_decoding()
     // First, decode the size of the source.
     const auto src_sz = [&,this]
     {
-      auto res = std::uint16_t{0};
+      auto res = std::uint32_t{0};
       for (auto repair_row = 0ul; repair_row < m_inv.dimension(); ++repair_row)
       {
         const auto coeff = m_inv(repair_row, src_col);
         if (coeff != 0)
         {
-          const auto tmp = m_gf.multiply_size(m_index[repair_row]->encoded_size(), coeff);
-          res = static_cast<std::uint16_t>(tmp) ^ res;
+          res ^= m_gf.multiply_size(m_index[repair_row]->encoded_size(), coeff);
         }
       }
-      return res;
+      return static_cast<std::uint16_t>(res);
     }();
 
     // Now, decode symbol.
diff --git a/netcode/detail/encoder.cc b/netcode/detail/encoder.cc
index be5f549..3bf2f46 100644
--- a/netcode/detail/encoder.cc
+++ b/netcode/detail/encoder.cc
@@ -57,9 +57,7 @@ encoder::operator()(encoder_repair& repair, source_list& sources)
     m_gf.multiply_add(cit->symbol().data(), repair.symbol().data(), cit->size(), c);
 
     // Finally, add the user size.
-    // Cast is necessary to inhibit conversion warning as xor implicitly convert to a signed value.
-    repair.encoded_size()
-      = static_cast<std::uint16_t>(m_gf.multiply_size(cit->size(), c) ^ repair.encoded_size());
+    repair.encoded_size() ^= m_gf.multiply_size(cit->size(), c);
   }
 }
 
diff --git a/netcode/detail/galois_field.hh b/netcode/detail/galois_field.hh
index 820e5e1..3b6c14e 100644
--- a/netcode/detail/galois_field.hh
+++ b/netcode/detail/galois_field.hh
@@ -93,8 +93,9 @@ public:
 
   /// @brief Multiply a size with a coefficient.
   /// @attention Make sure that the coefficient is generated with galois_field::coefficient.
-  std::uint16_t
-  multiply_size(std::uint16_t size, std::uint32_t coeff)
+  /// @note Only a field of 32 bits needs more than 16 bits to hold the result.
+  std::uint32_t
+  multiply_size(std::uint32_t size, std::uint32_t coeff)
   noexcept
   {
     assert(  (((m_w == 4 or m_w == 8 or m_w == 16 ) and coeff < (1u << m_w)) or (m_w == 32))
@@ -108,14 +109,18 @@ public:
     if (m_w <= 8) // 4 or 8
     {
       __attribute__((aligned(16))) std::uint16_t res;
-      __attribute__((aligned(16))) std::uint16_t size_ = size;
+      __attribute__((aligned(16))) std::uint16_t size_ = static_cast<std::uint16_t>(size);
       multiply( reinterpret_cast<char*>(&size_), reinterpret_cast<char*>(&res)
               , sizeof(std::uint16_t), coeff);
       return res;
     }
-    else // w = 16 or 32
+    else if (m_w == 16)
+    {
+      return m_gf.multiply.w32(&m_gf, static_cast<std::uint16_t>(size), coeff);
+    }
+    else // w = 32
     {
-      return static_cast<std::uint16_t>(m_gf.multiply.w32(&m_gf, size, coeff));
+      return m_gf.multiply.w32(&m_gf, size, coeff);
     }
   }
 
diff --git a/netcode/detail/packetizer.hh b/netcode/detail/packetizer.hh
index eb13943..d80bf8d 100644
--- a/netcode/detail/packetizer.hh
+++ b/netcode/detail/packetizer.hh
@@ -108,8 +108,9 @@ public:
     // Write source identifiers.
     write(r.source_ids());
 
-    // Write encoded size.
-    write<std::uint16_t>(r.encoded_size());
+    // Write encoded size: the 16 lower bits, then the 16 higher bits (only used by fields of 32 bits).
+    write<std::uint16_t>(r.encoded_size() & 0xffffu);
+    write<std::uint16_t>(r.encoded_size() >> 16);
 
     // End of data.
     mark_end();
@@ -149,8 +150,10 @@ public:
     // Read source identifiers
     auto ids = read_ids(data, max_len);
 
-    // Read encoded size.
-    const auto encoded_sz = read<std::uint16_t>(data, max_len);
+    // Read encoded size: the 16 lower bits, then the 16 higher bits.
+    const std::uint32_t encoded_sz_low = read<std::uint16_t>(data, max_len);
+    const std::uint32_t encoded_sz_high = read<std::uint16_t>(data, max_len);
+    const auto encoded_sz = (encoded_sz_high << 16) | encoded_sz_low;
 
     return std::make_pair( decoder_repair{id, encoded_sz, std::move(ids), std::move(p), symbol_size}
                          , reinterpret_cast<std::size_t>(data) - begin); // Number of read bytes.
diff --git a/netcode/detail/repair.hh b/netcode/detail/repair.hh
index 09bfec2..a470fdd 100644
--- a/netcode/detail/repair.hh
+++ b/netcode/detail/repair.hh
@@ -36,7 +36,7 @@ public:
 
   /// @brief Construct with an existing list of source identifiers and a symbol.
   /// @note For tests
-  encoder_repair( std::uint32_t id, std::uint16_t encoded_size, source_id_list&& ids
+  encoder_repair( std::uint32_t id, std::uint32_t encoded_size, source_id_list&& ids
                 , detail::zero_byte_buffer&& buffer)
     : m_id{id}
     , m_sources_ids{std::move(ids)}
@@ -104,7 +104,7 @@ public:
   }
 
   /// @brief Get the encoded sizes of all sources this repair contains.
-  std::uint16_t
+  std::uint32_t
   encoded_size()
   const noexcept
   {
@@ -112,7 +112,7 @@ public:
   }
 
   /// @brief Get the encoded sizes of all sources this repair contains.
-  std::uint16_t&
+  std::uint32_t&
   encoded_size()
   noexcept
   {
@@ -128,7 +128,7 @@ private:
   source_id_list m_sources_ids;
 
   /// @brief The encoded sizes of all sources this repair contains.
-  std::uint16_t m_encoded_size;
+  std::uint32_t m_encoded_size;
 
   /// @brief This repair's symbol.
   detail::zero_byte_buffer m_buffer;
@@ -158,7 +158,7 @@ public:
   decoder_repair& operator=(decoder_repair&&) = default;
 
   /// @brief Construct with an existing list of source identifiers and a symbol.
-  decoder_repair( std::uint32_t id, std::uint16_t encoded_size, source_id_list&& ids
+  decoder_repair( std::uint32_t id, std::uint32_t encoded_size, source_id_list&& ids
                 , packet&& p, std::size_t symbol_size)
     : m_id{id}
     , m_sources_ids{std::move(ids)}
@@ -216,7 +216,7 @@ public:
   }
 
   /// @brief Get the encoded sizes of all sources this repair contains.
-  std::uint16_t
+  std::uint32_t
   encoded_size()
   const noexcept
   {
@@ -224,7 +224,7 @@ public:
   }
 
   /// @brief Get the encoded sizes of all sources this repair contains.
-  std::uint16_t&
+  std::uint32_t&
   encoded_size()
   noexcept
   {
@@ -248,7 +248,7 @@ private:
   source_id_list m_sources_ids;
 
   /// @brief The encoded sizes of all sources this repair contains.
-  std::uint16_t m_encoded_size;
+  std::uint32_t m_encoded_size;
 
   /// @brief This repair's symbol.
   packet m_symbol_buffer;
-- 
2.43.0


From 8e9150ff7ff9b527d75af4ebbe2ca114f57b731c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:52 +0000
Subject: [PATCH 03/22] fix: lists of identifiers with gaps larger than 65535

The difference between two consecutive identifiers was truncated to 16 bits. A
sender with an old unacknowledged source and a receiver which gets sources after
a long outage thus listed other identifiers than the ones they meant, that is,
wrong acks and repairs decoded with wrong coefficients.
An empty run, which had no meaning until now, carries the 16 higher bits.
---
 netcode/detail/packetizer.hh | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/netcode/detail/packetizer.hh b/netcode/detail/packetizer.hh
index d80bf8d..18849eb 100644
--- a/netcode/detail/packetizer.hh
+++ b/netcode/detail/packetizer.hh
@@ -288,7 +288,12 @@ private:
         ++run_length;
         ++cit;
       }
-      m_rle_buffer.emplace_back(run_length, *cit);
+      if (*cit > std::numeric_limits<std::uint16_t>::max())
+      {
+        // This difference doesn't fit in 16 bits, an empty run carries its 16 higher bits.
+        m_rle_buffer.emplace_back(std::uint8_t{0}, static_cast<std::uint16_t>(*cit >> 16));
+      }
+      m_rle_buffer.emplace_back(run_length, static_cast<std::uint16_t>(*cit & 0xffffu));
       ++cit;
     }
 
@@ -330,15 +335,23 @@ private:
 
     // Reverse running length encoding on the fly.
     const auto nb_pairs = nb_elements - 1u; // Remove the first identifier.
+    auto high = std::uint32_t{0}; // The 16 higher bits of the next difference.
     for (auto i = 0ul; i < nb_pairs; ++i)
     {
       const auto run_length = read<std::uint8_t>(data, max_len);
       const auto value = read<std::uint16_t>(data, max_len);
 
+      if (run_length == 0)
+      {
+        high = std::uint32_t{value} << 16;
+        continue;
+      }
+
       for (auto j = 0u; j < run_length; ++j)
       {
-        m_difference_buffer.push_back(value);
+        m_difference_buffer.push_back(high | value);
       }
+      high = 0;
     }
 
     // Revert to list of source identifiers.
-- 
2.43.0


From 2c24b5d5940ec9e68dbd60c1da63c68701db0194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:37 +0000
Subject: [PATCH 04/22] fix: honour a window size lowered at run time

A source was dropped only when the number of sources was exactly the window
size. Once set_window_size() had been called with less than the current number
of sources, the window grew without limit.
The oldest source is now dropped only when the new one has been stored.
---
 netcode/encoder.hh | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/netcode/encoder.hh b/netcode/encoder.hh
index 7c553fe..8f665cb 100644
--- a/netcode/encoder.hh
+++ b/netcode/encoder.hh
@@ -255,14 +255,15 @@ private:
   void
   commit_impl(data&& d)
   {
-    if (m_sources.size() == m_window_size)
+    // Create a new source in-place at the end of the list of sources.
+    const auto& insertion = m_sources.emplace(m_current_source_id, std::move(d));
+
+    // The window might have been lowered since the last source: drop as many sources as needed.
+    while (m_sources.size() > m_window_size)
     {
       m_sources.pop_front();
     }
 
-    // Create a new source in-place at the end of the list of sources.
-    const auto& insertion = m_sources.emplace(m_current_source_id, std::move(d));
-
     if (m_code_type == systematic::yes)
     {
       ++m_nb_sent_sources;
-- 
2.43.0


From 1a948556760aadd366d4cb61683fb98462eda7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:37 +0000
Subject: [PATCH 05/22] fix: generate_repair() without any source

When all sources have been acknowledged, or before the first one,
generate_repair() read beyond the end of an empty list.
---
 netcode/encoder.hh | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/netcode/encoder.hh b/netcode/encoder.hh
index 8f665cb..0688929 100644
--- a/netcode/encoder.hh
+++ b/netcode/encoder.hh
@@ -162,6 +162,11 @@ public:
   void
   generate_repair()
   {
+    if (m_sources.size() == 0)
+    {
+      // All sources were acknowledged, there's nothing to repair.
+      return;
+    }
     m_repair.reset();
     mk_repair();
     ++m_nb_sent_packets;
-- 
2.43.0


From 21cbe27a05340ac64ae2fef65cf707b6987019f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:37 +0000
Subject: [PATCH 06/22] fix: never use a source identifier twice

The identifier was incremented at the end of the submission. When user's packet
handler (or an allocation) threw an exception, the source stayed in the window
and the next source got the same identifier.
---
 netcode/encoder.hh | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/netcode/encoder.hh b/netcode/encoder.hh
index 0688929..23a4c86 100644
--- a/netcode/encoder.hh
+++ b/netcode/encoder.hh
@@ -263,6 +263,9 @@ private:
     // Create a new source in-place at the end of the list of sources.
     const auto& insertion = m_sources.emplace(m_current_source_id, std::move(d));
 
+    // From now on, this identifier is used, even if user's handler throws an exception.
+    ++m_current_source_id;
+
     // The window might have been lowered since the last source: drop as many sources as needed.
     while (m_sources.size() > m_window_size)
     {
@@ -282,12 +285,10 @@ private:
     }
 
     /// @todo Should we generate a repair if window_size() == 1?
-    if ((m_current_source_id + 1) % m_rate == 0)
+    if (m_current_source_id % m_rate == 0)
     {
       generate_repair();
     }
-
-    ++m_current_source_id;
   }
 
   /// @brief Notify the encoder that some packet has been received (should be an ack)
-- 
2.43.0


From 14cf53c858a10f302a669272d9aee5a4cf542022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:37 +0000
Subject: [PATCH 07/22] fix: count more than 65535 packets between two acks

The number of sent packets was counted on 16 bits: without an ack for a while it
wrapped around, and the adaptive rate was computed from a wrong loss.
---
 netcode/encoder.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/netcode/encoder.hh b/netcode/encoder.hh
index 23a4c86..39d8b14 100644
--- a/netcode/encoder.hh
+++ b/netcode/encoder.hh
@@ -309,8 +309,8 @@ private:
       {
         if (m_nb_sent_packets > 0)
         {
-          const auto loss_rate
-            = (m_nb_sent_packets - res.first.nb_packets()) / static_cast<double>(m_nb_sent_packets);
+          const auto nb_sent = static_cast<double>(m_nb_sent_packets);
+          const auto loss_rate = (nb_sent - res.first.nb_packets()) / nb_sent;
           m_rate = rate_for_loss(loss_rate);
         }
         else
@@ -398,7 +398,7 @@ private:
   std::size_t m_nb_sent_sources;
 
   /// @brief The number of sent packets since last ack
-  std::uint16_t m_nb_sent_packets;
+  std::size_t m_nb_sent_packets;
 };
 
 /*------------------------------------------------------------------------------------------------*/
-- 
2.43.0


From 62ab0072ac7d066a17b7857ec9925cd10e3172ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:37 +0000
Subject: [PATCH 08/22] fix: don't count truncated packets

A packet rejected with overflow_error was counted as received, hence also in the
next ack, which hid losses from the adaptive rate.
---
 netcode/decoder.hh | 4 ++--
 netcode/encoder.hh | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/netcode/decoder.hh b/netcode/decoder.hh
index d89d6e4..07552ed 100644
--- a/netcode/decoder.hh
+++ b/netcode/decoder.hh
@@ -98,18 +98,18 @@ public:
     {
       case detail::packet_type::repair:
       {
+        auto res = m_packetizer.read_repair(std::move(p));
         ++m_nb_received_repairs;
         ++m_ack.nb_packets();
-        auto res = m_packetizer.read_repair(std::move(p));
         m_decoder(std::move(res.first));
         return res.second;
       }
 
       case detail::packet_type::source:
       {
+        auto res = m_packetizer.read_source(std::move(p));
         ++m_nb_received_sources;
         ++m_ack.nb_packets();
-        auto res = m_packetizer.read_source(std::move(p));
         m_decoder(std::move(res.first));
         return res.second;
       }
diff --git a/netcode/encoder.hh b/netcode/encoder.hh
index 39d8b14..947c770 100644
--- a/netcode/encoder.hh
+++ b/netcode/encoder.hh
@@ -303,8 +303,8 @@ private:
     }
     else
     {
-      ++m_nb_acks;
       const auto res = m_packetizer.read_ack(std::move(p));
+      ++m_nb_acks;
       if (m_adaptive)
       {
         if (m_nb_sent_packets > 0)
-- 
2.43.0


From 6549d12286dca4cc1010a0a332d48aa48cb9a502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:35 +0000
Subject: [PATCH 09/22] fix: a late repair must not resurrect outdated sources

A repair was dropped only if all its sources were outdated. A delayed or
duplicated repair which references outdated sources together with current ones
moved the identifier of the oldest source backwards: sources which had already
been received were considered missing, they were given again to user, and
repairs could no longer be used as sources they need had been forgotten.
---
 netcode/detail/decoder.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/netcode/detail/decoder.cc b/netcode/detail/decoder.cc
index e528438..444c62c 100644
--- a/netcode/detail/decoder.cc
+++ b/netcode/detail/decoder.cc
@@ -56,10 +56,10 @@ decoder::operator()(decoder_repair&& incoming_r)
 {
   assert(not incoming_r.source_ids().empty());
 
-  const auto last_id_in_source_ids = *(incoming_r.source_ids().end() - 1);
-  if (m_last_id and last_id_in_source_ids < *m_last_id)
+  const auto first_id_in_source_ids = *incoming_r.source_ids().begin();
+  if (m_last_id and first_id_in_source_ids < *m_last_id)
   {
-    // It's a repair that provide outdated informations, drop it.
+    // It's a repair that references sources which are outdated, drop it.
     return;
   }
 
-- 
2.43.0


From 6e0ccad37b4b4b7f9383c5fc96ee8bb2218010ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:27 +0000
Subject: [PATCH 10/22] fix: decode all sources that can be rebuilt one by one

When a source was rebuilt directly from a repair, it wasn't removed from the
other repairs that reference it, and repairs reduced to the same missing source
were never used, as only missing sources referenced by exactly one repair were
looked at: sources were not delivered, more repairs than missing sources were
left (which corrupts memory in attempt_full_decoding()), and in in-order mode a
source rebuilt by the recursive call while its predecessor was being added was
never delivered at all. Moreover the recursion erased the element the caller's
iterator was pointing to.
Iterate over the repairs instead, with each source added before the next one is
rebuilt, and try a full decoding afterwards.
---
 netcode/detail/decoder.cc | 113 +++++++++++++++-----------------------
 netcode/detail/decoder.hh |  11 ++--
 2 files changed, 51 insertions(+), 73 deletions(-)

diff --git a/netcode/detail/decoder.cc b/netcode/detail/decoder.cc
index 444c62c..c99ca43 100644
--- a/netcode/detail/decoder.cc
+++ b/netcode/detail/decoder.cc
@@ -45,7 +45,8 @@ decoder::operator()(decoder_source&& src)
     return;
   }
 
-  add_source_recursive(std::move(src));
+  add_source(std::move(src));
+  decode_single_sources();
   attempt_full_decoding();
 }
 
@@ -130,24 +131,8 @@ decoder::operator()(decoder_repair&& incoming_r)
   }
   assert(not r.source_ids().empty());
 
-  // Check if we can rebuild a missing source directly with this repair.
-  if (r.source_ids().size() == 1)
-  {
-    // Create missing source.
-    auto src = create_source_from_repair(r);
-
-    // Source is no longer missing.
-    m_missing_sources.erase(src.id());
-
-    // This repair is no longer needed.
-    m_repairs.erase(r_cit);
-
-    // This newly decode source might trigger the decoding of several other sources.
-    add_source_recursive(std::move(src));
-
-    return;
-  }
-
+  // We might be able to rebuild a missing source directly with this repair.
+  decode_single_sources();
   attempt_full_decoding();
 }
 
@@ -247,7 +232,7 @@ const noexcept
 /*------------------------------------------------------------------------------------------------*/
 
 void
-decoder::add_source_recursive(decoder_source&& src)
+decoder::add_source(decoder_source&& src)
 {
   if (not m_in_order)
   {
@@ -262,7 +247,7 @@ decoder::add_source_recursive(decoder_source&& src)
     flush_ordered_sources();
   }
 
-  // First, remove this source from all repairs that encode it.
+  // Remove this source from all repairs that encode it.
   const auto search = m_missing_sources.find(src.id());
   if (search != m_missing_sources.end())
   {
@@ -276,64 +261,55 @@ decoder::add_source_recursive(decoder_source&& src)
     m_missing_sources.erase(search);
   }
 
-  // Now, look for repairs that encodes only 1 source. When one is found, the corresponding
-  // encoded source is decoded and the repair is erased.
-  for ( auto miss_cit = m_missing_sources.begin(), miss_end = m_missing_sources.end()
-      ; miss_cit != miss_end;)
+  // Insert-move this new source in the set of known sources.
+  const auto src_id = src.id(); // to force evaluation order in the following call.
+  const auto insertion = m_sources.emplace(src_id, std::move(src));
+  assert(insertion.second && "source already added");
+
+  if (m_in_order and insertion.first->second.id() > m_first_missing_source_in_order)
   {
-    const auto& repairs_cits = miss_cit->second;
-    // Does this missing source is referenced by only one repair?
-    if (repairs_cits.size() == 1)
-    {
-      // Some shortcuts.
-      const auto r_cit = *repairs_cits.begin();
-      const auto& r = r_cit->second;
+    // We can't send the current source as there are some older sources which have not been sent.
+    m_ordered_sources.emplace(insertion.first->second.id(), &insertion.first->second);
+  }
+}
 
-      // Does this repair encode only 1 source?
-      if (r.source_ids().size() == 1)
-      {
-        // Check that this source wasn't decoded in the past.
-        assert(m_last_id ? *r.source_ids().begin() >= *m_last_id : true);
-        // Check that this source doesn't belong to the set of current sources.
-        assert(not m_sources.count(*r.source_ids().begin()));
+/*------------------------------------------------------------------------------------------------*/
 
-        // This missing source is referenced by only 1 repair and this repair references only 1
-        // missing source. Thus, we can reconstruct the missing source.
-        auto decoded_src = create_source_from_repair(r);
+void
+decoder::decode_single_sources()
+{
+  for (auto r_cit = m_repairs.begin(); r_cit != m_repairs.end();)
+  {
+    const auto& r = r_cit->second;
+    if (r.source_ids().empty())
+    {
+      // All the sources of this repair are now known.
+      r_cit = m_repairs.erase(r_cit);
+    }
+    else if (r.source_ids().size() == 1)
+    {
+      // Check that this source wasn't decoded in the past.
+      assert(m_last_id ? *r.source_ids().begin() >= *m_last_id : true);
+      // Check that this source doesn't belong to the set of current sources.
+      assert(not m_sources.count(*r.source_ids().begin()));
 
-        // We can erase this repair.
-        m_repairs.erase(r_cit);
+      // This repair references only 1 missing source. Thus, we can reconstruct the missing source.
+      auto decoded_src = create_source_from_repair(r);
 
-        // It's no longer a missing source.
-        miss_cit = m_missing_sources.erase(miss_cit);
+      // We can erase this repair. The missing source might still be referenced by other repairs.
+      m_missing_sources.find(decoded_src.id())->second.erase(r_cit);
+      m_repairs.erase(r_cit);
 
-        // This newly decoded source might trigger the decoding of other sources.
-        add_source_recursive(std::move(decoded_src));
-      }
-      else
-      {
-        // This repair encodes too much sources, other sources are needed to reconstruct *miss_cit.
-        // Try next missing source.
-        ++miss_cit;
-      }
+      // This newly decoded source might trigger the decoding of other sources, look for them.
+      add_source(std::move(decoded_src));
+      r_cit = m_repairs.begin();
     }
     else
     {
-      // This missing source is referenced by multiple repairs. Try next missing source.
-      ++miss_cit;
+      // This repair encodes too much sources.
+      ++r_cit;
     }
   }
-
-  // Insert-move this new source in the set of known sources.
-  const auto src_id = src.id(); // to force evaluation order in the following call.
-  const auto insertion = m_sources.emplace(src_id, std::move(src));
-  assert(insertion.second && "source already added");
-
-  if (m_in_order and insertion.first->second.id() > m_first_missing_source_in_order)
-  {
-    // We can't send the current source as there are some older sources which have not been sent.
-    m_ordered_sources.emplace(insertion.first->second.id(), &insertion.first->second);
-  }
 }
 
 /*------------------------------------------------------------------------------------------------*/
@@ -394,7 +370,6 @@ void
 decoder::remove_source_data_from_repair(const decoder_source& src, decoder_repair& r)
 noexcept
 {
-  assert(r.source_ids().size() > 1 && "Repair encodes only one source");
   assert(src.symbol_size() <= r.symbol_size());
 
   const auto coeff = m_gf.coefficient(r.id(), src.id());
diff --git a/netcode/detail/decoder.hh b/netcode/detail/decoder.hh
index 48987a8..b568fb7 100644
--- a/netcode/detail/decoder.hh
+++ b/netcode/detail/decoder.hh
@@ -73,7 +73,6 @@ public:
   noexcept;
 
   /// @brief Remove a source from a repair.
-  /// @attention @p r shall encode more than one source.
   void
   remove_source_from_repair(const decoder_source& src, decoder_repair& r)
   noexcept;
@@ -110,9 +109,14 @@ public:
 
 private:
 
-  /// @brief Recursively decode any repair that encodes only one source.
+  /// @brief Give a new source to the callback, remove it from all repairs and add it to the set of
+  /// known sources.
   void
-  add_source_recursive(decoder_source&& src);
+  add_source(decoder_source&& src);
+
+  /// @brief Decode all repairs that encode only one source, until there are no more such repairs.
+  void
+  decode_single_sources();
 
   /// @brief Drop outdated sources and repairs.
   /// @param id The oldest id to keep. 
@@ -126,7 +130,6 @@ private:
   /// @brief Remove a source from a repair, but not the id from the list of source identifiers.
   /// @attention The id of the removed src must be removed from the repair's list of source
   /// identifiers afterwards.
-  /// @attention @p r shall encode more than one source.
   void
   remove_source_data_from_repair(const decoder_source& src, decoder_repair& r)
   noexcept;
-- 
2.43.0


From 101f9cde24872c492efe98900cd540793ffea87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:29 +0000
Subject: [PATCH 11/22] fix: drop the repairs which are really dependent

When the matrix of coefficients was singular, the last repair was dropped,
whichever repairs were dependent: an independent repair could be lost while the
dependent ones were kept, and the receiver stayed stuck with further repairs.
Missing sources only referenced by outdated repairs were kept too, with which no
full decoding was ever possible again.
---
 netcode/detail/decoder.cc | 112 ++++++++++++++++++++++++++++++--------
 netcode/detail/decoder.hh |  10 ++++
 2 files changed, 99 insertions(+), 23 deletions(-)

diff --git a/netcode/detail/decoder.cc b/netcode/detail/decoder.cc
index c99ca43..bababb2 100644
--- a/netcode/detail/decoder.cc
+++ b/netcode/detail/decoder.cc
@@ -297,8 +297,7 @@ decoder::decode_single_sources()
       auto decoded_src = create_source_from_repair(r);
 
       // We can erase this repair. The missing source might still be referenced by other repairs.
-      m_missing_sources.find(decoded_src.id())->second.erase(r_cit);
-      m_repairs.erase(r_cit);
+      erase_repair(r_cit);
 
       // This newly decoded source might trigger the decoding of other sources, look for them.
       add_source(std::move(decoded_src));
@@ -331,11 +330,7 @@ noexcept
     // longer useful.
     if (id > *r.source_ids().begin())
     {
-      for (const auto src_id : r.source_ids())
-      {
-        m_missing_sources.find(src_id)->second.erase(cit);
-      }
-      cit = m_repairs.erase(cit);
+      cit = erase_repair(cit);
     }
     else
     {
@@ -383,6 +378,81 @@ noexcept
 
 /*------------------------------------------------------------------------------------------------*/
 
+decoder::repairs_set_type::iterator
+decoder::erase_repair(repairs_set_type::iterator r_cit)
+noexcept
+{
+  for (const auto src_id : r_cit->second.source_ids())
+  {
+    const auto search = m_missing_sources.find(src_id);
+    if (search != m_missing_sources.end())
+    {
+      search->second.erase(r_cit);
+      if (search->second.empty())
+      {
+        // No other repair references this source.
+        m_missing_sources.erase(search);
+      }
+    }
+  }
+  return m_repairs.erase(r_cit);
+}
+
+/*------------------------------------------------------------------------------------------------*/
+
+void
+decoder::drop_dependent_repairs()
+{
+  // Gaussian elimination: the rows are the coefficients of the independent repairs, indexed by the
+  // position of their leading coefficient (which is 1).
+  std::vector<std::vector<std::uint32_t>> rows(m_missing_sources.size());
+  std::vector<std::uint32_t> row;
+
+  for (auto r_cit = m_repairs.begin(); r_cit != m_repairs.end();)
+  {
+    row.clear();
+    for (const auto& missing : m_missing_sources)
+    {
+      row.push_back( r_cit->second.source_ids().count(missing.first)
+                   ? m_gf.coefficient(r_cit->first, missing.first)
+                   : 0u);
+    }
+
+    auto independent = false;
+    for (auto lead = 0ul; lead < row.size() and not independent; ++lead)
+    {
+      if (row[lead] == 0)
+      {
+        continue;
+      }
+      if (rows[lead].empty())
+      {
+        const auto inverse = m_gf.invert(row[lead]);
+        for (auto& coeff : row)
+        {
+          coeff = m_gf.multiply(coeff, inverse);
+        }
+        rows[lead] = row;
+        independent = true;
+      }
+      else
+      {
+        const auto factor = row[lead];
+        for (auto i = lead; i < row.size(); ++i)
+        {
+          row[i] ^= m_gf.multiply(factor, rows[lead][i]);
+        }
+      }
+    }
+
+    // All the sources a dependent repair references are also referenced by other repairs, thus the
+    // set of missing sources remains the same.
+    r_cit = independent ? std::next(r_cit) : erase_repair(r_cit);
+  }
+}
+
+/*------------------------------------------------------------------------------------------------*/
+
 void
 decoder::attempt_full_decoding()
 {
@@ -397,6 +467,16 @@ decoder::attempt_full_decoding()
     return;
   }
 
+  if (m_missing_sources.size() < m_repairs.size())
+  {
+    // Some repairs are superfluous.
+    drop_dependent_repairs();
+    if (m_missing_sources.size() > m_repairs.size())
+    {
+      return;
+    }
+  }
+
   assert(m_missing_sources.size() == m_repairs.size() && "More repairs than missing sources");
   assert(m_missing_sources.size() > 1 && "Trying to create a matrix for only one missing source.");
 
@@ -421,23 +501,9 @@ decoder::attempt_full_decoding()
   const auto r_col = invert(m_gf, m_coefficients, m_inv);
   if (r_col)
   {
-    // Inversion failed, remove the faulty repair.
+    // Inversion failed, remove the faulty repairs.
     m_nb_failed_full_decodings += 1;
-
-    // Find the repair corresponding to r_col.
-    auto r_cit = m_repairs.begin();
-    // To avoid a conversion warning with clang's -Wconversion.
-    using difference_type = std::iterator_traits<decltype(r_cit)>::difference_type;
-    std::advance(r_cit, static_cast<difference_type>(*r_col));
-
-    // Remove repair from missing sources that reference it.
-    for (const auto src : r_cit->second.source_ids())
-    {
-      m_missing_sources[src].erase(r_cit);
-    }
-
-    // We can now effectively remove the repair.
-    m_repairs.erase(r_cit);
+    drop_dependent_repairs();
     return;
   }
 
diff --git a/netcode/detail/decoder.hh b/netcode/detail/decoder.hh
index b568fb7..a8bffe6 100644
--- a/netcode/detail/decoder.hh
+++ b/netcode/detail/decoder.hh
@@ -134,6 +134,16 @@ private:
   remove_source_data_from_repair(const decoder_source& src, decoder_repair& r)
   noexcept;
 
+  /// @brief Remove a repair and the links from the missing sources it references.
+  /// @return The repair that follows the removed one.
+  repairs_set_type::iterator
+  erase_repair(repairs_set_type::iterator r_cit)
+  noexcept;
+
+  /// @brief Drop all repairs which are linear combinations of other repairs.
+  void
+  drop_dependent_repairs();
+
   /// @brief Try to construct missing sources from the set of repairs.
   void
   attempt_full_decoding();
-- 
2.43.0


From 68e99a1e0d7652dbff58eb84ca39659790219906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:06 +0000
Subject: [PATCH 12/22] fix: keep the decoder consistent when a callback or an
 allocation throws

User's data handler, the packet handler when an ack is sent and allocations can
throw. drop_outdated() and create_source_from_repair() were noexcept, which
terminated the program. In other cases sources were left half added: given to
user but not recorded (hence given twice), recorded but never given, or still
referenced by repairs.
Update the state before calling the callback, and undo what can't be completed.
---
 netcode/detail/decoder.cc | 139 ++++++++++++++++++--------------------
 netcode/detail/decoder.hh |   6 +-
 2 files changed, 67 insertions(+), 78 deletions(-)

diff --git a/netcode/detail/decoder.cc b/netcode/detail/decoder.cc
index bababb2..3b5583d 100644
--- a/netcode/detail/decoder.cc
+++ b/netcode/detail/decoder.cc
@@ -98,7 +98,7 @@ decoder::operator()(decoder_repair&& incoming_r)
   auto r_cit = insertion.first;
   auto& r = insertion.first->second;
 
-  // Remove from incoming repair all existing sources and link with missing sources.
+  // Remove from incoming repair all existing sources.
   // Reverse loop as flat_set::erase() invalidates iterators behind the one being erased.
   for ( auto id_rcit = r.source_ids().rbegin(), end = r.source_ids().rend(); id_rcit != end
       ; ++id_rcit)
@@ -114,22 +114,23 @@ decoder::operator()(decoder_repair&& incoming_r)
       const auto to_erase = std::next(id_rcit).base();
       r.source_ids().erase(to_erase);
     }
-    else // Link this repair with the missing sources it references.
+  }
+  assert(not r.source_ids().empty());
+
+  // Link this repair with the missing sources it references.
+  try
+  {
+    for (const auto src_id : r.source_ids())
     {
-      auto search_src_id = m_missing_sources.find(*id_rcit);
-      if (search_src_id == m_missing_sources.end())
-      {
-        // Create missing source.
-        m_missing_sources.emplace(*id_rcit, repairs_iterators_type{r_cit});
-      }
-      else
-      {
-        // The missing source already exists.
-        search_src_id->second.emplace(r_cit);
-      }
+      m_missing_sources[src_id].emplace(r_cit);
     }
   }
-  assert(not r.source_ids().empty());
+  catch (...)
+  {
+    // Don't keep a repair which is not linked with all the sources it references.
+    erase_repair(r_cit);
+    throw;
+  }
 
   // We might be able to rebuild a missing source directly with this repair.
   decode_single_sources();
@@ -140,7 +141,6 @@ decoder::operator()(decoder_repair&& incoming_r)
 
 decoder_source
 decoder::create_source_from_repair(const decoder_repair& r)
-noexcept
 {
   assert(r.source_ids().size() == 1 && "Repair encodes more that 1 source");
   const auto src_id = *r.source_ids().begin();
@@ -234,42 +234,49 @@ const noexcept
 void
 decoder::add_source(decoder_source&& src)
 {
-  if (not m_in_order)
-  {
-    m_callback(src);
-  }
-  else if (src.id() == m_first_missing_source_in_order)
+  // Insert-move this new source in the set of known sources.
+  const auto src_id = src.id(); // to force evaluation order in the following call.
+  const auto insertion = m_sources.emplace(src_id, std::move(src));
+  assert(insertion.second && "source already added");
+  const auto& inserted_src = insertion.first->second;
+
+  if (m_in_order and src_id >= m_first_missing_source_in_order)
   {
-    m_callback(src);
-    m_first_missing_source_in_order += 1;
-    // Send all sources that could not be previously sent because their ids were greater than
-    // m_first_missing_source_in_order.
-    flush_ordered_sources();
+    try
+    {
+      m_ordered_sources.emplace(src_id, &inserted_src);
+    }
+    catch (...)
+    {
+      m_sources.erase(insertion.first);
+      throw;
+    }
   }
 
   // Remove this source from all repairs that encode it.
-  const auto search = m_missing_sources.find(src.id());
+  const auto search = m_missing_sources.find(src_id);
   if (search != m_missing_sources.end())
   {
     for (auto r_cit : search->second)
     {
       auto& r = r_cit->second;
-      remove_source_from_repair(src, r);
+      remove_source_from_repair(inserted_src, r);
     }
 
     // It's no longer a missing source.
     m_missing_sources.erase(search);
   }
 
-  // Insert-move this new source in the set of known sources.
-  const auto src_id = src.id(); // to force evaluation order in the following call.
-  const auto insertion = m_sources.emplace(src_id, std::move(src));
-  assert(insertion.second && "source already added");
-
-  if (m_in_order and insertion.first->second.id() > m_first_missing_source_in_order)
+  // Callback might throw: everything has to be up to date at this point.
+  if (m_in_order)
+  {
+    // Give this source, and the ones that were waiting for it, unless some older sources are still
+    // missing.
+    flush_ordered_sources();
+  }
+  else
   {
-    // We can't send the current source as there are some older sources which have not been sent.
-    m_ordered_sources.emplace(insertion.first->second.id(), &insertion.first->second);
+    m_callback(inserted_src);
   }
 }
 
@@ -315,7 +322,6 @@ decoder::decode_single_sources()
 
 void
 decoder::drop_outdated(std::uint32_t id)
-noexcept
 {
   // All sources with an identifier strictly less than last_id_ are now considered outdated.
   m_last_id = id;
@@ -342,10 +348,13 @@ noexcept
   {
     // flush_ordered_sources() won't give to user sources with identifier smaller than id, thus we
     // take care of it now.
-    for (auto cit = m_ordered_sources.begin(), end = m_ordered_sources.lower_bound(id); cit != end;)
+    while (not m_ordered_sources.empty() and m_ordered_sources.begin()->first < id)
     {
-      m_callback(*cit->second);
-      cit = m_ordered_sources.erase(cit);
+      // Callback might throw, thus remember first that this source has been given.
+      const auto& src = *m_ordered_sources.begin()->second;
+      m_ordered_sources.erase(m_ordered_sources.begin());
+      m_first_missing_source_in_order = src.id() + 1;
+      m_callback(src);
     }
     if (m_first_missing_source_in_order < id)
     {
@@ -517,6 +526,9 @@ decoder::attempt_full_decoding()
     m_index.emplace_back(&rid_repair.second);
   }
 
+  std::vector<decoder_source> decoded;
+  decoded.reserve(m_missing_sources.size());
+
   auto src_col = 0u;
   for (const auto& miss : m_missing_sources)
   {
@@ -573,28 +585,7 @@ decoder::attempt_full_decoding()
     }
     ++src_col;
 
-    // Source decoded, add it to the set of known sources.
-    const auto insertion = m_sources.emplace(miss.first, std::move(src));
-    assert(insertion.second && "source already added");
-
-    const auto& inserted_src = insertion.first->second;
-    if (not m_in_order)
-    {
-      m_callback(inserted_src);
-    }
-    else if (inserted_src.id() == m_first_missing_source_in_order)
-    {
-      m_callback(inserted_src);
-      m_first_missing_source_in_order += 1;
-      // Send all sources that could not be previously sent because their ids were greater than
-      // first_missing_source_.
-      flush_ordered_sources();
-    }
-    else
-    {
-      // We can't send the current source as there are some older sources which have not been sent.
-      m_ordered_sources.emplace(inserted_src.id(), &inserted_src);
-    }
+    decoded.emplace_back(std::move(src));
   }
 
   m_nb_decoded += m_missing_sources.size();
@@ -602,6 +593,12 @@ decoder::attempt_full_decoding()
   // Cleanup.
   m_repairs.clear();
   m_missing_sources.clear();
+
+  // Now that repairs are no longer needed, add sources to the set of known sources.
+  for (auto& src : decoded)
+  {
+    add_source(std::move(src));
+  }
 }
 
 /*------------------------------------------------------------------------------------------------*/
@@ -612,20 +609,14 @@ decoder::flush_ordered_sources()
   // If we find the first missing source, we can give to user all sources with a identifier
   // that follow m_first_missing_source in sequence.
   auto cit = m_ordered_sources.find(m_first_missing_source_in_order);
-  if (cit != m_ordered_sources.end())
+  while (cit != m_ordered_sources.end() and cit->first == m_first_missing_source_in_order)
   {
-    while (true)
-    {
-      assert(cit->first == m_first_missing_source_in_order);
-      m_callback(*cit->second);
-      cit = m_ordered_sources.erase(cit);
-      m_first_missing_source_in_order += 1;
-
-      if (cit == m_ordered_sources.end() or cit->first > m_first_missing_source_in_order)
-      {
-        break;
-      }
-    }
+    // Callback might throw, thus remember first that this source has been given.
+    const auto& src = *cit->second;
+    m_ordered_sources.erase(cit);
+    m_first_missing_source_in_order += 1;
+    m_callback(src);
+    cit = m_ordered_sources.find(m_first_missing_source_in_order);
   }
 }
 
diff --git a/netcode/detail/decoder.hh b/netcode/detail/decoder.hh
index a8bffe6..76034b5 100644
--- a/netcode/detail/decoder.hh
+++ b/netcode/detail/decoder.hh
@@ -69,8 +69,7 @@ public:
   /// @brief Decode a source contained in a repair.
   /// @attention @p r shall encode exactly one source.
   decoder_source
-  create_source_from_repair(const decoder_repair& r)
-  noexcept;
+  create_source_from_repair(const decoder_repair& r);
 
   /// @brief Remove a source from a repair.
   void
@@ -124,8 +123,7 @@ private:
   /// All sources with an identifier smaller than @p id will be dropped, as well as all repairs
   /// that reference thes outdated sources.
   void
-  drop_outdated(std::uint32_t id)
-  noexcept;
+  drop_outdated(std::uint32_t id);
 
   /// @brief Remove a source from a repair, but not the id from the list of source identifiers.
   /// @attention The id of the removed src must be removed from the repair's list of source
-- 
2.43.0


From 22eaba6313eb6fc1af7a26041cdb1a1a5a675ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:31 +0000
Subject: [PATCH 13/22] fix: C constructors return NULL when memory is
 exhausted

The functions that create the C objects are noexcept and only used the nothrow
operator new for the object itself: when one of its members could not be
allocated, the program was terminated.
---
 netcode/c/data.cc    | 20 ++++++++++++++++++--
 netcode/c/decoder.cc | 18 +++++++++++++-----
 netcode/c/encoder.cc | 12 ++++++++++--
 netcode/c/packet.cc  | 20 ++++++++++++++++++--
 4 files changed, 59 insertions(+), 11 deletions(-)

diff --git a/netcode/c/data.cc b/netcode/c/data.cc
index b10677f..6433a2b 100644
--- a/netcode/c/data.cc
+++ b/netcode/c/data.cc
@@ -9,7 +9,15 @@ ntc_data_t*
 ntc_new_data(uint16_t size)
 noexcept
 {
-  return new (std::nothrow) ntc_data_t(size);
+  // The constructor itself might throw.
+  try
+  {
+    return new (std::nothrow) ntc_data_t(size);
+  }
+  catch (...)
+  {
+    return nullptr;
+  }
 }
 
 /*------------------------------------------------------------------------------------------------*/
@@ -18,7 +26,15 @@ ntc_data_t*
 ntc_new_data_from(const char* src, uint16_t size)
 noexcept
 {
-  return new (std::nothrow) ntc_data_t(src, src + size);
+  // The constructor itself might throw.
+  try
+  {
+    return new (std::nothrow) ntc_data_t(src, src + size);
+  }
+  catch (...)
+  {
+    return nullptr;
+  }
 }
 
 /*------------------------------------------------------------------------------------------------*/
diff --git a/netcode/c/decoder.cc b/netcode/c/decoder.cc
index e07178a..ba9c033 100644
--- a/netcode/c/decoder.cc
+++ b/netcode/c/decoder.cc
@@ -11,11 +11,19 @@ ntc_new_decoder( uint8_t galois_field_size, ntc_ordering_type order
                , ntc_packet_handler packet_handler, ntc_data_handler data_handler)
 noexcept
 {
-  return new (std::nothrow) ntc_decoder_t{ galois_field_size
-                                         , order == ntc_in_order_yes ? ntc::in_order::yes
-                                                                     : ntc::in_order::no
-                                         , ntc::detail::c_packet_handler{packet_handler}
-                                         , ntc::detail::c_data_handler{data_handler}};
+  // The constructor itself might throw.
+  try
+  {
+    return new (std::nothrow) ntc_decoder_t{ galois_field_size
+                                           , order == ntc_in_order_yes ? ntc::in_order::yes
+                                                                       : ntc::in_order::no
+                                           , ntc::detail::c_packet_handler{packet_handler}
+                                           , ntc::detail::c_data_handler{data_handler}};
+  }
+  catch (...)
+  {
+    return nullptr;
+  }
 }
 
 /*------------------------------------------------------------------------------------------------*/
diff --git a/netcode/c/encoder.cc b/netcode/c/encoder.cc
index 74c718f..a4c1a2c 100644
--- a/netcode/c/encoder.cc
+++ b/netcode/c/encoder.cc
@@ -9,8 +9,16 @@ ntc_encoder_t*
 ntc_new_encoder(uint8_t galois_field_size, ntc_packet_handler handler)
 noexcept
 {
-  return new (std::nothrow) ntc_encoder_t{ galois_field_size
-                                         , ntc::detail::c_packet_handler{handler}};
+  // The constructor itself might throw.
+  try
+  {
+    return new (std::nothrow) ntc_encoder_t{ galois_field_size
+                                           , ntc::detail::c_packet_handler{handler}};
+  }
+  catch (...)
+  {
+    return nullptr;
+  }
 }
 
 /*------------------------------------------------------------------------------------------------*/
diff --git a/netcode/c/packet.cc b/netcode/c/packet.cc
index babdcf7..83878fe 100644
--- a/netcode/c/packet.cc
+++ b/netcode/c/packet.cc
@@ -9,7 +9,15 @@ ntc_packet_t*
 ntc_new_packet(uint16_t size)
 noexcept
 {
-  return new (std::nothrow) ntc_packet_t(size);
+  // The constructor itself might throw.
+  try
+  {
+    return new (std::nothrow) ntc_packet_t(size);
+  }
+  catch (...)
+  {
+    return nullptr;
+  }
 }
 
 /*------------------------------------------------------------------------------------------------*/
@@ -18,7 +26,15 @@ ntc_packet_t*
 ntc_new_packet_from(const char* src, uint16_t size)
 noexcept
 {
-  return new (std::nothrow) ntc_packet_t(src, src + size);
+  // The constructor itself might throw.
+  try
+  {
+    return new (std::nothrow) ntc_packet_t(src, src + size);
+  }
+  catch (...)
+  {
+    return nullptr;
+  }
 }
 
 /*------------------------------------------------------------------------------------------------*/
-- 
2.43.0


From 2db7f31525c195a8382a44c24703fb4df24d62f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:09 +0000
Subject: [PATCH 14/22] fix: don't trust the sizes of sources and repairs
 received from the network

A corrupted repair smaller than one of its sources, or a decoded size larger
than the repairs it comes from, made the decoder read or write out of bounds.
---
 netcode/detail/decoder.cc | 89 ++++++++++++++++++++++++++++++++++++---
 netcode/detail/decoder.hh | 16 +++++++
 2 files changed, 98 insertions(+), 7 deletions(-)

diff --git a/netcode/detail/decoder.cc b/netcode/detail/decoder.cc
index 3b5583d..f592189 100644
--- a/netcode/detail/decoder.cc
+++ b/netcode/detail/decoder.cc
@@ -55,7 +55,11 @@ decoder::operator()(decoder_source&& src)
 void
 decoder::operator()(decoder_repair&& incoming_r)
 {
-  assert(not incoming_r.source_ids().empty());
+  if (incoming_r.source_ids().empty() or not is_valid_size(incoming_r.symbol_size()))
+  {
+    // Malformed repair, drop it.
+    return;
+  }
 
   const auto first_id_in_source_ids = *incoming_r.source_ids().begin();
   if (m_last_id and first_id_in_source_ids < *m_last_id)
@@ -89,6 +93,20 @@ decoder::operator()(decoder_repair&& incoming_r)
     return;
   }
 
+  // A repair can't be smaller than one of its sources.
+  const auto consistent = std::all_of( begin(incoming_r.source_ids()), end(incoming_r.source_ids())
+                                     , [&,this](std::uint32_t src_id)
+                                       {
+                                         const auto search = m_sources.find(src_id);
+                                         return search == m_sources.end()
+                                             or can_encode(incoming_r, search->second);
+                                       });
+  if (not consistent)
+  {
+    // Malformed repair, drop it.
+    return;
+  }
+
   // Add this repair to the set of known repairs.
   const auto r_id = incoming_r.id(); // to force evaluation order in the following call.
   const auto insertion = m_repairs.emplace(r_id, std::move(incoming_r));
@@ -149,7 +167,7 @@ decoder::create_source_from_repair(const decoder_repair& r)
   const auto inv = m_gf.invert(m_gf.coefficient(r.id(), src_id));
 
   // Reconstruct size.
-  const auto src_sz = static_cast<std::uint16_t>(m_gf.multiply_size(r.encoded_size(), inv));
+  const auto src_sz = decoded_size(r);
 
   // The source that will be reconstructed.
   auto src = decoder_source{src_id, packet(src_sz + packet::alignment), src_sz};
@@ -257,14 +275,23 @@ decoder::add_source(decoder_source&& src)
   const auto search = m_missing_sources.find(src_id);
   if (search != m_missing_sources.end())
   {
-    for (auto r_cit : search->second)
+    // It's no longer a missing source.
+    const auto repairs = std::move(search->second);
+    m_missing_sources.erase(search);
+
+    for (auto r_cit : repairs)
     {
       auto& r = r_cit->second;
-      remove_source_from_repair(inserted_src, r);
+      if (can_encode(r, inserted_src))
+      {
+        remove_source_from_repair(inserted_src, r);
+      }
+      else
+      {
+        // Malformed repair, drop it.
+        erase_repair(r_cit);
+      }
     }
-
-    // It's no longer a missing source.
-    m_missing_sources.erase(search);
   }
 
   // Callback might throw: everything has to be up to date at this point.
@@ -300,6 +327,14 @@ decoder::decode_single_sources()
       // Check that this source doesn't belong to the set of current sources.
       assert(not m_sources.count(*r.source_ids().begin()));
 
+      const auto src_sz = decoded_size(r);
+      if (not is_valid_size(src_sz) or src_sz > r.symbol_size())
+      {
+        // Malformed repair, drop it.
+        r_cit = erase_repair(r_cit);
+        continue;
+      }
+
       // This repair references only 1 missing source. Thus, we can reconstruct the missing source.
       auto decoded_src = create_source_from_repair(r);
 
@@ -387,6 +422,36 @@ noexcept
 
 /*------------------------------------------------------------------------------------------------*/
 
+bool
+decoder::is_valid_size(std::size_t size)
+const noexcept
+{
+  // With fields of 16 and 32 bits, sizes have to be a multiple of 2 and 4 bytes.
+  return m_gf.size() <= 8 or size % (m_gf.size() / 8) == 0;
+}
+
+/*------------------------------------------------------------------------------------------------*/
+
+bool
+decoder::can_encode(const decoder_repair& r, const decoder_source& src)
+const noexcept
+{
+  return is_valid_size(src.symbol_size()) and src.symbol_size() <= r.symbol_size();
+}
+
+/*------------------------------------------------------------------------------------------------*/
+
+std::uint16_t
+decoder::decoded_size(const decoder_repair& r)
+noexcept
+{
+  assert(r.source_ids().size() == 1 && "Repair encodes more that 1 source");
+  const auto inv = m_gf.invert(m_gf.coefficient(r.id(), *r.source_ids().begin()));
+  return static_cast<std::uint16_t>(m_gf.multiply_size(r.encoded_size(), inv));
+}
+
+/*------------------------------------------------------------------------------------------------*/
+
 decoder::repairs_set_type::iterator
 decoder::erase_repair(repairs_set_type::iterator r_cit)
 noexcept
@@ -521,9 +586,11 @@ decoder::attempt_full_decoding()
   // Build an index for fast retrieving of repairs from the inverted matrix.
   m_index.clear();
   m_index.reserve(m_repairs.size());
+  auto max_sz = std::size_t{0};
   for (auto& rid_repair : m_repairs)
   {
     m_index.emplace_back(&rid_repair.second);
+    max_sz = std::max(max_sz, std::size_t{rid_repair.second.symbol_size()});
   }
 
   std::vector<decoder_source> decoded;
@@ -547,6 +614,14 @@ decoder::attempt_full_decoding()
       return static_cast<std::uint16_t>(res);
     }();
 
+    if (not is_valid_size(src_sz) or src_sz > max_sz)
+    {
+      // At least one of the repairs is malformed, there's no way to know which one.
+      m_repairs.clear();
+      m_missing_sources.clear();
+      return;
+    }
+
     // Now, decode symbol.
     // When sources are directly received from the network, they are constructed in a such way that
     // there is a padding before the symbol and the headers (to avoid copy). Here, we have to
diff --git a/netcode/detail/decoder.hh b/netcode/detail/decoder.hh
index 76034b5..37d6ba4 100644
--- a/netcode/detail/decoder.hh
+++ b/netcode/detail/decoder.hh
@@ -132,6 +132,22 @@ private:
   remove_source_data_from_repair(const decoder_source& src, decoder_repair& r)
   noexcept;
 
+  /// @brief Tell if the Galois field can process some data of size @p size.
+  bool
+  is_valid_size(std::size_t size)
+  const noexcept;
+
+  /// @brief Tell if @p r can encode @p src (it can't be the case when one of them is corrupted).
+  bool
+  can_encode(const decoder_repair& r, const decoder_source& src)
+  const noexcept;
+
+  /// @brief Get the size of the source encoded by a repair.
+  /// @attention @p r shall encode exactly one source.
+  std::uint16_t
+  decoded_size(const decoder_repair& r)
+  noexcept;
+
   /// @brief Remove a repair and the links from the missing sources it references.
   /// @return The repair that follows the removed one.
   repairs_set_type::iterator
-- 
2.43.0


From d8eafbd9aebdfd7d28f3d4c63de725f4c175e1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:39 +0000
Subject: [PATCH 15/22] fix: unsorted lists of identifiers took a quadratic
 time

---
 netcode/detail/packetizer.hh | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/netcode/detail/packetizer.hh b/netcode/detail/packetizer.hh
index 18849eb..4ed483e 100644
--- a/netcode/detail/packetizer.hh
+++ b/netcode/detail/packetizer.hh
@@ -356,7 +356,15 @@ private:
 
     // Revert to list of source identifiers.
     std::partial_sum( m_difference_buffer.begin(), m_difference_buffer.end()
-                    , std::inserter(ids, ids.end()));
+                    , m_difference_buffer.begin());
+
+    // A malformed list might be not sorted: inserting its identifiers one by one would be quadratic.
+    if (not std::is_sorted(m_difference_buffer.begin(), m_difference_buffer.end()))
+    {
+      std::sort(m_difference_buffer.begin(), m_difference_buffer.end());
+    }
+    const auto last = std::unique(m_difference_buffer.begin(), m_difference_buffer.end());
+    ids.insert(boost::container::ordered_unique_range, m_difference_buffer.begin(), last);
 
     return ids;
   }
-- 
2.43.0


From cafaf29118e0e0445626cfdd15b659be98527669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:27 +0000
Subject: [PATCH 16/22] fix: don't give a partial packet to the handler when
 memory is exhausted

---
 netcode/detail/packetizer.hh | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/netcode/detail/packetizer.hh b/netcode/detail/packetizer.hh
index 4ed483e..6cf3005 100644
--- a/netcode/detail/packetizer.hh
+++ b/netcode/detail/packetizer.hh
@@ -46,6 +46,9 @@ public:
   void
   write_ack(const ack& a)
   {
+    // Might throw: must be done before giving anything to user's handler.
+    compress(a.source_ids());
+
     // Write packet type.
     static const auto packet_ty = static_cast<std::uint8_t>(packet_type::ack);
     write<std::uint8_t>(packet_ty);
@@ -92,6 +95,9 @@ public:
   {
     assert(r.symbol().size() > 0 && "A repair's symbol shall not be empty");
 
+    // Might throw: must be done before giving anything to user's handler.
+    compress(r.source_ids());
+
     // Write packet type.
     static const auto packet_ty = static_cast<std::uint8_t>(packet_type::repair);
     write<std::uint8_t>(packet_ty);
@@ -254,19 +260,17 @@ private:
     m_packet_handler(reinterpret_cast<const char*>(&big), sizeof(T));
   }
 
-  /// @brief Serialize a list of source identifiers.
+  /// @brief Compress a list of source identifiers into the RLE buffer.
   ///
   /// The list is compressed using a RLE encoding on adjacent differences.
   void
-  write(const source_id_list& ids)
+  compress(const source_id_list& ids)
   {
     m_difference_buffer.clear();
     m_rle_buffer.clear();
 
     if (ids.size() == 0)
     {
-      static constexpr std::uint16_t zero = 0;
-      write<std::uint16_t>(zero);
       return;
     }
 
@@ -296,6 +300,19 @@ private:
       m_rle_buffer.emplace_back(run_length, static_cast<std::uint16_t>(*cit & 0xffffu));
       ++cit;
     }
+  }
+
+  /// @brief Serialize a list of source identifiers.
+  /// @attention The list must have been compressed with compress().
+  void
+  write(const source_id_list& ids)
+  {
+    if (ids.size() == 0)
+    {
+      static constexpr std::uint16_t zero = 0;
+      write<std::uint16_t>(zero);
+      return;
+    }
 
     // Write the number of elements (number of pairs + the first identifier).
     write<std::uint16_t>(m_rle_buffer.size() + 1);
-- 
2.43.0


From 743ede3a440ff470b5848fac48613bc223742f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:50 +0000
Subject: [PATCH 17/22] fix: reading back a dumped packet skipped a byte

Incrementing the iterator after copy_n dropped one byte of the record, so
every packet read back was altered. A truncated record is now reported
rather than read as garbage.
---
 netcode/detail/serialize_packet.hh | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/netcode/detail/serialize_packet.hh b/netcode/detail/serialize_packet.hh
index 2c89092..3237697 100644
--- a/netcode/detail/serialize_packet.hh
+++ b/netcode/detail/serialize_packet.hh
@@ -2,6 +2,7 @@
 
 #include <algorithm> // copy
 #include <iostream>
+#include <stdexcept> // runtime_error
 
 #include <boost/endian/conversion.hpp>
 
@@ -29,17 +30,20 @@ struct serialize_packet
   {
     auto p = packet{};
 
-    std::istreambuf_iterator<char> isb(is);
     auto sz = std::uint16_t{};
-    std::copy_n(isb, 2, reinterpret_cast<char*>(&sz));
-    ++isb;
+    if (not is.read(reinterpret_cast<char*>(&sz), sizeof(sz)))
+    {
+      throw std::runtime_error{"truncated packet"};
+    }
 
     const auto sz_native = boost::endian::big_to_native(sz);
 
     p.m_buffer.resize(sz_native);
-    std::copy_n(isb, sz_native, p.m_buffer.begin());
+    if (not is.read(p.m_buffer.data(), sz_native))
+    {
+      throw std::runtime_error{"truncated packet"};
+    }
 
-    ++isb;
     return p;
   }
 };
-- 
2.43.0


From 02a2cb43e615a94c3f6e339ae445e9cff11815d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:50 +0000
Subject: [PATCH 18/22] fix: the replay tool never fed the last packet of a
 dump

---
 tools/replay.cc | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/tools/replay.cc b/tools/replay.cc
index 694fc2e..c8c9610 100644
--- a/tools/replay.cc
+++ b/tools/replay.cc
@@ -59,15 +59,10 @@ main(int argc, const char** argv)
     ntc::decoder<packet_handler, data_handler> decoder{ 8, ntc::in_order::yes, packet_handler{}
                                                       , data_handler{}};
 
-    while (true)
+    while (dump_file.peek() != std::char_traits<char>::eof())
     {
       const auto packet = ntc::detail::serialize_packet::read(dump_file);
 
-      if (dump_file.peek() == std::char_traits<char>::eof())
-      {
-        break;
-      }
-
       switch (ntc::detail::get_packet_type(packet))
       {
         case ntc::detail::packet_type::ack:
-- 
2.43.0


From ae3055dc66d11acca62a218db1380a55688ce2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:50 +0000
Subject: [PATCH 19/22] fix: the source forwarder ignored the size of datagrams

A truncated source was forwarded with bytes that were not received. A
malformed source is now ignored.
---
 tools/source_forwarder.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/tools/source_forwarder.cc b/tools/source_forwarder.cc
index 045eee9..347634e 100644
--- a/tools/source_forwarder.cc
+++ b/tools/source_forwarder.cc
@@ -2,6 +2,7 @@
 
 #include <boost/asio.hpp>
 
+#include "netcode/errors.hh"
 #include "netcode/packet.hh"
 #include "netcode/detail/packetizer.hh"
 
@@ -78,8 +79,17 @@ main(int argc, const char** argv)
       {
         if (buffer[0] == 2) // source
         {
-          const auto src = packetizer.read_source(std::move(buffer)).first;
-          out_socket.send_to(boost::asio::buffer(src.symbol(), src.symbol_size()), out_endpoint);
+          // Otherwise, bytes that were not received would be forwarded.
+          buffer.resize(sz);
+          try
+          {
+            const auto src = packetizer.read_source(std::move(buffer)).first;
+            out_socket.send_to(boost::asio::buffer(src.symbol(), src.symbol_size()), out_endpoint);
+          }
+          catch (const ntc::overflow_error&)
+          {
+            // Malformed source, ignore it.
+          }
         }
       }
     }
-- 
2.43.0


From 330936a17aa74a9a803bcc82666a6ac46016724f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:35 +0000
Subject: [PATCH 20/22] fix: packets of more than 65535 bytes corrupted the
 recorded session

---
 netcode/detail/serialize_packet.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/netcode/detail/serialize_packet.hh b/netcode/detail/serialize_packet.hh
index 3237697..63e2a5f 100644
--- a/netcode/detail/serialize_packet.hh
+++ b/netcode/detail/serialize_packet.hh
@@ -19,7 +19,7 @@ struct serialize_packet
   void
   write(std::ostream& os, const packet& p)
   {
-    const auto sz = boost::endian::native_to_big(static_cast<std::uint16_t>(p.m_buffer.size()));
+    const auto sz = boost::endian::native_to_big(static_cast<std::uint32_t>(p.m_buffer.size()));
     os.write(reinterpret_cast<const char*>(&sz), sizeof(sz));
     std::copy(p.m_buffer.begin(), p.m_buffer.end(), std::ostreambuf_iterator<char>(os));
   }
@@ -30,7 +30,7 @@ struct serialize_packet
   {
     auto p = packet{};
 
-    auto sz = std::uint16_t{};
+    auto sz = std::uint32_t{};
     if (not is.read(reinterpret_cast<char*>(&sz), sizeof(sz)))
     {
       throw std::runtime_error{"truncated packet"};
-- 
2.43.0


From d4265f9643a1bdd47c2ccc3fba05e235f9c48291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:06 +0000
Subject: [PATCH 21/22] fix: the number of packets carried by an ack wrapped
 around after 65535

---
 netcode/decoder.hh | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/netcode/decoder.hh b/netcode/decoder.hh
index 07552ed..ffad589 100644
--- a/netcode/decoder.hh
+++ b/netcode/decoder.hh
@@ -6,6 +6,7 @@
 #endif
 
 #include <chrono>
+#include <limits>
 
 #include "netcode/detail/decoder.hh"
 #include "netcode/detail/packet_type.hh"
@@ -100,7 +101,7 @@ public:
       {
         auto res = m_packetizer.read_repair(std::move(p));
         ++m_nb_received_repairs;
-        ++m_ack.nb_packets();
+        count_packet();
         m_decoder(std::move(res.first));
         return res.second;
       }
@@ -109,7 +110,7 @@ public:
       {
         auto res = m_packetizer.read_source(std::move(p));
         ++m_nb_received_sources;
-        ++m_ack.nb_packets();
+        count_packet();
         m_decoder(std::move(res.first));
         return res.second;
       }
@@ -288,6 +289,18 @@ public:
 
 private:
 
+  /// @brief Count a packet received since the last ack.
+  void
+  count_packet()
+  noexcept
+  {
+    // This counter is carried on 16 bits by acks, don't let it wrap around.
+    if (m_ack.nb_packets() < std::numeric_limits<std::uint16_t>::max())
+    {
+      ++m_ack.nb_packets();
+    }
+  }
+
   /// @brief Callback given to the real encoder to be notified when a source is processed.
   void
   handle_source(const detail::decoder_source& src)
-- 
2.43.0


From ce4167ff62b8a499d37f5d888b43de593873cddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:42 +0000
Subject: [PATCH 22/22] fix: large ack periods overflowed and acks were sent
 too early

---
 netcode/decoder.hh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/netcode/decoder.hh b/netcode/decoder.hh
index ffad589..7dd7423 100644
--- a/netcode/decoder.hh
+++ b/netcode/decoder.hh
@@ -240,7 +240,10 @@ public:
     else if (m_ack_period != std::chrono::milliseconds{0})
     {
       const auto now = std::chrono::steady_clock::now();
-      if ((now - m_last_ack_date) >= m_ack_period)
+      // Don't convert the period to the clock's resolution: a large one would overflow.
+      const auto elapsed
+        = std::chrono::duration_cast<std::chrono::milliseconds>(now - m_last_ack_date);
+      if (elapsed >= m_ack_period)
       {
         generate_ack();
         m_last_ack_date = now;
-- 
2.43.0

