From af9b80ee8ae7c2b40bad35355cb9e412d5aec7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:52 +0000
Subject: [PATCH 01/32] fix: include <limits> for std::numeric_limits and
 float_denorm_style

---
 include/ipaddress/config.hpp | 1 +
 src/ipaddress.ixx            | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/ipaddress/config.hpp b/include/ipaddress/config.hpp
index f0e52a7..11c621d 100644
--- a/include/ipaddress/config.hpp
+++ b/include/ipaddress/config.hpp
@@ -27,6 +27,7 @@
 #  include <sstream>
 #  include <iomanip>
 #  include <cstring>
+#  include <limits>
 #  include <numeric>
 #  include <iterator>
 #  include <algorithm>
diff --git a/src/ipaddress.ixx b/src/ipaddress.ixx
index 05b074d..e815b4f 100644
--- a/src/ipaddress.ixx
+++ b/src/ipaddress.ixx
@@ -9,6 +9,7 @@ module;
 #include <sstream>
 #include <iomanip>
 #include <cstring>
+#include <limits>
 #include <numeric>
 #include <iterator>
 #include <algorithm>
-- 
2.43.0


From 0d467e98cd2b4c89f81908ae9279f67fba0e295c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:01 +0000
Subject: [PATCH 02/32] fix: parse the whole address part of a network text

---
 include/ipaddress/ip-network-base.hpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/include/ipaddress/ip-network-base.hpp b/include/ipaddress/ip-network-base.hpp
index 04a8136..817dcf8 100644
--- a/include/ipaddress/ip-network-base.hpp
+++ b/include/ipaddress/ip-network-base.hpp
@@ -1260,9 +1260,11 @@ private:
         auto end = str.data() + str.size();
         auto has_slash = false;
         auto netmask = end;
-        auto symbol = 0;
-        char address[ip_address_type::base_max_string_len + 1] = {};
+        auto address = str.data();
+        auto address_end = end;
+        uint32_t address_value = 0;
         while (it < end) {
+            const auto current = it;
             const auto c = internal::next_char_or_error(it, end, code, code_value);
             if (code != error_code::no_error) {
                 return ip_network_base<Base>();
@@ -1277,14 +1279,9 @@ private:
                     return ip_network_base<Base>();
                 }
                 netmask = it;
+                address_end = current;
                 has_slash = true;
             }
-            if (!has_slash) {
-                address[symbol++] = c;
-            }
-            if (symbol > ip_address_type::base_max_string_len) {
-                break;
-            }
         }
 
         auto netmask_result = ip_address_type::parse_netmask(netmask, end, code, code_value);
@@ -1294,7 +1291,7 @@ private:
         }
 
         ip_network_base<Base> result;
-        result._network_address = ip_address_type::parse(address, code);
+        result._network_address = ip_address_type::ip_from_string(address, address_end, code, address_value);
         result._netmask = std::get<0>(netmask_result);
         result._prefixlen = std::get<1>(netmask_result);
 
-- 
2.43.0


From 3ddc298902882dfa55713b8e4656a2aebbb728a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:31 +0000
Subject: [PATCH 03/32] fix: reject embedded NUL characters in IPv6 text and
 scope ids

---
 include/ipaddress/base-v6.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/ipaddress/base-v6.hpp b/include/ipaddress/base-v6.hpp
index 2f155cb..7d40107 100644
--- a/include/ipaddress/base-v6.hpp
+++ b/include/ipaddress/base-v6.hpp
@@ -20,7 +20,7 @@ namespace IPADDRESS_NAMESPACE {
 namespace internal {
 
 IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE bool is_invalid_scope_id_symbol(char c) IPADDRESS_NOEXCEPT {
-    return c == '%' || c == '/' 
+    return c == '%' || c == '/' || c == '\0'
 #ifndef IPADDRESS_SCOPE_ID_SUPPORT_SPACES
     || c == ' ' || (c >= '\t' && c <= '\r')
 #endif // IPADDRESS_SCOPE_ID_SUPPORT_SPACES
@@ -376,6 +376,10 @@ private:
                     error = error_code::part_is_more_4_chars;
                     return empty_parts;
                 }
+                if (c == '\0') {
+                    error = error_code::part_has_invalid_symbol;
+                    return empty_parts;
+                }
                 last_part[symbol++] = c;
                 last_part[symbol] = '\0';
             } else {
-- 
2.43.0


From 614ede2cb431c43e58c1d3288a9fe333f84cb2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:53 +0000
Subject: [PATCH 04/32] fix: accept an IPv4 tail after '::' and five hextets

---
 include/ipaddress/base-v6.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ipaddress/base-v6.hpp b/include/ipaddress/base-v6.hpp
index 7d40107..6f1caa5 100644
--- a/include/ipaddress/base-v6.hpp
+++ b/include/ipaddress/base-v6.hpp
@@ -421,7 +421,7 @@ private:
         }
 
         if (has_ipv4) {
-            if (parts_count + 1 >= _max_parts) {
+            if (parts_count + 1 >= _max_parts + (has_double_colon ? 1 : 0)) {
                 error = error_code::most_8_colons_permitted;
                 return empty_parts;
             }
-- 
2.43.0


From 86d1ebcaaac3f789632d44bb23b27b5be12569fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:07 +0000
Subject: [PATCH 05/32] fix: treat netmask 0.0.0.0 as /0 without an
 out-of-range shift

---
 include/ipaddress/base-v4.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ipaddress/base-v4.hpp b/include/ipaddress/base-v4.hpp
index 3a225ee..2244fc4 100644
--- a/include/ipaddress/base-v4.hpp
+++ b/include/ipaddress/base-v4.hpp
@@ -243,7 +243,7 @@ private:
         auto trailing_zeroes = count_righthand_zero_bits(ip, base_max_prefixlen);
         auto prefixlen = base_max_prefixlen - trailing_zeroes;
         auto leading_ones = trailing_zeroes != 32 ? (ip >> trailing_zeroes) : 0;
-        auto all_ones = (uint_type(1) << (prefixlen - 1) << 1) - uint_type(1); // NOLINT
+        auto all_ones = prefixlen != 0 ? (uint_type(1) << (prefixlen - 1) << 1) - uint_type(1) : 0; // NOLINT
         if (leading_ones != all_ones) {
             code = error_code::netmask_pattern_mixes_zeroes_and_ones;
             return 0;
-- 
2.43.0


From 0606af201b21c12dc04342a914df72dac006c860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:26 +0000
Subject: [PATCH 06/32] fix: do not wrap around on long prefix length numerals

---
 include/ipaddress/base-v4.hpp | 2 +-
 include/ipaddress/base-v6.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ipaddress/base-v4.hpp b/include/ipaddress/base-v4.hpp
index 2244fc4..01a532e 100644
--- a/include/ipaddress/base-v4.hpp
+++ b/include/ipaddress/base-v4.hpp
@@ -191,7 +191,7 @@ protected:
                 return std::make_tuple(ip_address_base<Ext>(), 0);
             }
             if (c >= '0' && c <= '9') {
-                prefixlen = prefixlen * 10 + (c - '0');
+                prefixlen = prefixlen <= base_max_prefixlen ? prefixlen * 10 + (c - '0') : prefixlen;
             } else {
                 is_value = false;
                 break;
diff --git a/include/ipaddress/base-v6.hpp b/include/ipaddress/base-v6.hpp
index 6f1caa5..8dca7a3 100644
--- a/include/ipaddress/base-v6.hpp
+++ b/include/ipaddress/base-v6.hpp
@@ -253,7 +253,7 @@ protected:
                 return std::make_tuple(ip_address_base<Ext>(), 0);
             }
             if (c >= '0' && c <= '9') {
-                prefixlen = prefixlen * 10 + (c - '0');
+                prefixlen = prefixlen <= base_max_prefixlen ? prefixlen * 10 + (c - '0') : prefixlen;
             } else {
                 code = error_code::invalid_netmask;
                 return std::make_tuple(ip_address_base<Ext>(), 0);
-- 
2.43.0


From 123ef8d04b9e93a781ce71f9fc472254b7b77b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:43 +0000
Subject: [PATCH 07/32] fix: no numeric scope id when it does not fit in 32
 bits

---
 include/ipaddress/ipv6-address.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/ipaddress/ipv6-address.hpp b/include/ipaddress/ipv6-address.hpp
index ed081ff..40680c7 100644
--- a/include/ipaddress/ipv6-address.hpp
+++ b/include/ipaddress/ipv6-address.hpp
@@ -242,7 +242,7 @@ private:
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE void parse_value() IPADDRESS_NOEXCEPT {
         if (!_scope_id.empty()) {
             _has_value = true;
-            uint32_t value = 0;
+            uint64_t value = 0;
             const auto scope_id_size = _scope_id.size();
             for (size_t i = 0; i < scope_id_size; ++i) {
                 const auto c = _scope_id[i];
@@ -252,8 +252,12 @@ private:
                     _has_value = false;
                     break;
                 }
+                if (value > 0xFFFFFFFF) {
+                    _has_value = false;
+                    break;
+                }
             }
-            _scope_id_value = _has_value ? value : 0;
+            _scope_id_value = _has_value ? uint32_t(value) : 0;
         }
     }
 
-- 
2.43.0


From 92dc2c9a522d7f4c7f748e1bf607dbeff20cc3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:06 +0000
Subject: [PATCH 08/32] fix: order IPv6 addresses by bytes before scope id
 without operator<=>

---
 include/ipaddress/ipv6-address.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ipaddress/ipv6-address.hpp b/include/ipaddress/ipv6-address.hpp
index 40680c7..944cf1e 100644
--- a/include/ipaddress/ipv6-address.hpp
+++ b/include/ipaddress/ipv6-address.hpp
@@ -815,7 +815,7 @@ protected:
         return lhs._data.bytes < rhs._data.bytes 
         
         #if IPADDRESS_IPV6_SCOPE_MAX_LENGTH > 0
-            ? true : lhs._data.scope_id.compare(rhs._data.scope_id) < 0;
+            || (lhs._data.bytes == rhs._data.bytes && lhs._data.scope_id.compare(rhs._data.scope_id) < 0)
         #endif // IPADDRESS_IPV6_SCOPE_MAX_LENGTH
             ;
     }
-- 
2.43.0


From 363bdb8319ab72051a505da746b705af52201f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:31 +0000
Subject: [PATCH 09/32] fix: always set the error code in set_scope_id, subnets
 and address_exclude

---
 include/ipaddress/ip-any-address.hpp  | 18 ++++++++++++++++++
 include/ipaddress/ip-network-base.hpp |  2 ++
 include/ipaddress/ipv6-address.hpp    | 20 ++++++++++++++++++++
 3 files changed, 40 insertions(+)

diff --git a/include/ipaddress/ip-any-address.hpp b/include/ipaddress/ip-any-address.hpp
index 32179d6..949e30d 100644
--- a/include/ipaddress/ip-any-address.hpp
+++ b/include/ipaddress/ip-any-address.hpp
@@ -856,6 +856,8 @@ public:
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE void set_scope_id(std::string_view scope_id, error_code& code) IPADDRESS_NOEXCEPT {
         if (_version == ip_version::V6) {
             _ipv.ipv6.set_scope_id(scope_id, code);
+        } else {
+            code = error_code::no_error;
         }
     }
 
@@ -877,6 +879,8 @@ public:
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE void set_scope_id(std::wstring_view scope_id, error_code& code) IPADDRESS_NOEXCEPT {
         if (_version == ip_version::V6) {
             _ipv.ipv6.set_scope_id(scope_id, code);
+        } else {
+            code = error_code::no_error;
         }
     }
 
@@ -895,6 +899,8 @@ public:
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE void set_scope_id(std::u8string_view scope_id, error_code& code) IPADDRESS_NOEXCEPT {
         if (_version == ip_version::V6) {
             _ipv.ipv6.set_scope_id(scope_id, code);
+        } else {
+            code = error_code::no_error;
         }
     }
 
@@ -918,6 +924,8 @@ public:
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE void set_scope_id(std::u16string_view scope_id, error_code& code) IPADDRESS_NOEXCEPT {
         if (_version == ip_version::V6) {
             _ipv.ipv6.set_scope_id(scope_id, code);
+        } else {
+            code = error_code::no_error;
         }
     }
 
@@ -939,6 +947,8 @@ public:
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE void set_scope_id(std::u32string_view scope_id, error_code& code) IPADDRESS_NOEXCEPT {
         if (_version == ip_version::V6) {
             _ipv.ipv6.set_scope_id(scope_id, code);
+        } else {
+            code = error_code::no_error;
         }
     }
 
@@ -1089,6 +1099,8 @@ public:
     IPADDRESS_FORCE_INLINE void set_scope_id(const std::string& scope_id, error_code& code) IPADDRESS_NOEXCEPT {
         if (_version == ip_version::V6) {
             _ipv.ipv6.set_scope_id(scope_id, code);
+        } else {
+            code = error_code::no_error;
         }
     }
 
@@ -1101,6 +1113,8 @@ public:
     IPADDRESS_FORCE_INLINE void set_scope_id(const std::wstring& scope_id, error_code& code) IPADDRESS_NOEXCEPT {
         if (_version == ip_version::V6) {
             _ipv.ipv6.set_scope_id(scope_id, code);
+        } else {
+            code = error_code::no_error;
         }
     }
 
@@ -1113,6 +1127,8 @@ public:
     IPADDRESS_FORCE_INLINE void set_scope_id(const std::u16string& scope_id, error_code& code) IPADDRESS_NOEXCEPT {
         if (_version == ip_version::V6) {
             _ipv.ipv6.set_scope_id(scope_id, code);
+        } else {
+            code = error_code::no_error;
         }
     }
 
@@ -1125,6 +1141,8 @@ public:
     IPADDRESS_FORCE_INLINE void set_scope_id(const std::u32string& scope_id, error_code& code) IPADDRESS_NOEXCEPT {
         if (_version == ip_version::V6) {
             _ipv.ipv6.set_scope_id(scope_id, code);
+        } else {
+            code = error_code::no_error;
         }
     }
 
diff --git a/include/ipaddress/ip-network-base.hpp b/include/ipaddress/ip-network-base.hpp
index 817dcf8..bee334c 100644
--- a/include/ipaddress/ip-network-base.hpp
+++ b/include/ipaddress/ip-network-base.hpp
@@ -938,6 +938,7 @@ public:
      * @remark `exclude_network_sequence` uses lazy evaluation to iterate networks.
      */
     IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE exclude_network_sequence<ip_network_base<Base>> address_exclude(const ip_network_base& other, error_code& code) const IPADDRESS_NOEXCEPT {
+        code = error_code::no_error;
         auto lhs = Base::remove_scope_id(*this);
         auto rhs = Base::remove_scope_id(other);
 
@@ -1020,6 +1021,7 @@ public:
      * @remark `subnets_sequence` uses lazy evaluation to iterate over the subnets.
      */
     IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE subnets_sequence<ip_network_base<Base>> subnets(error_code& code, size_t prefixlen_diff = 1, optional<size_t> new_prefixlen = nullptr) const IPADDRESS_NOEXCEPT {
+        code = error_code::no_error;
         auto address = Base::remove_scope_id(network_address());
 
         if (prefixlen() == ip_address_type::base_max_prefixlen) {
diff --git a/include/ipaddress/ipv6-address.hpp b/include/ipaddress/ipv6-address.hpp
index 944cf1e..6da9b95 100644
--- a/include/ipaddress/ipv6-address.hpp
+++ b/include/ipaddress/ipv6-address.hpp
@@ -344,6 +344,8 @@ public:
         if (code == error_code::no_error) {
             internal::ipv6_set_scope<ipv6_address_base>::change(_data.scope_id, fixed_scope, code);
         }
+    #else // IPADDRESS_IPV6_SCOPE_MAX_LENGTH <= 0
+        code = error_code::no_error;
     #endif // IPADDRESS_IPV6_SCOPE_MAX_LENGTH
     }
 
@@ -476,6 +478,8 @@ public:
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE void set_scope_id(std::string_view scope_id, error_code& code) IPADDRESS_NOEXCEPT {
     #if IPADDRESS_IPV6_SCOPE_MAX_LENGTH > 0
         internal::ipv6_set_scope<ipv6_address_base>::change(_data.scope_id, scope_id, code);
+    #else // IPADDRESS_IPV6_SCOPE_MAX_LENGTH <= 0
+        code = error_code::no_error;
     #endif // IPADDRESS_IPV6_SCOPE_MAX_LENGTH
     }
 
@@ -497,6 +501,8 @@ public:
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE void set_scope_id(std::wstring_view scope_id, error_code& code) IPADDRESS_NOEXCEPT {
     #if IPADDRESS_IPV6_SCOPE_MAX_LENGTH > 0
         internal::ipv6_set_scope<ipv6_address_base>::change(_data.scope_id, scope_id, code);
+    #else // IPADDRESS_IPV6_SCOPE_MAX_LENGTH <= 0
+        code = error_code::no_error;
     #endif // IPADDRESS_IPV6_SCOPE_MAX_LENGTH
     }
 
@@ -515,6 +521,8 @@ public:
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE void set_scope_id(std::u8string_view scope_id, error_code& code) IPADDRESS_NOEXCEPT {
     #if IPADDRESS_IPV6_SCOPE_MAX_LENGTH > 0
         internal::ipv6_set_scope<ipv6_address_base>::change(_data.scope_id, scope_id, code);
+    #else // IPADDRESS_IPV6_SCOPE_MAX_LENGTH <= 0
+        code = error_code::no_error;
     #endif // IPADDRESS_IPV6_SCOPE_MAX_LENGTH
     }
 
@@ -538,6 +546,8 @@ public:
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE void set_scope_id(std::u16string_view scope_id, error_code& code) IPADDRESS_NOEXCEPT {
     #if IPADDRESS_IPV6_SCOPE_MAX_LENGTH > 0
         internal::ipv6_set_scope<ipv6_address_base>::change(_data.scope_id, scope_id, code);
+    #else // IPADDRESS_IPV6_SCOPE_MAX_LENGTH <= 0
+        code = error_code::no_error;
     #endif // IPADDRESS_IPV6_SCOPE_MAX_LENGTH
     }
 
@@ -559,6 +569,8 @@ public:
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE void set_scope_id(std::u32string_view scope_id, error_code& code) IPADDRESS_NOEXCEPT {
     #if IPADDRESS_IPV6_SCOPE_MAX_LENGTH > 0
         internal::ipv6_set_scope<ipv6_address_base>::change(_data.scope_id, scope_id, code);
+    #else // IPADDRESS_IPV6_SCOPE_MAX_LENGTH <= 0
+        code = error_code::no_error;
     #endif // IPADDRESS_IPV6_SCOPE_MAX_LENGTH
     }
 
@@ -621,6 +633,8 @@ public:
     IPADDRESS_FORCE_INLINE void set_scope_id(const std::string& scope_id, error_code& code) IPADDRESS_NOEXCEPT {
     #if IPADDRESS_IPV6_SCOPE_MAX_LENGTH > 0
         internal::ipv6_set_scope<ipv6_address_base>::change(_data.scope_id, scope_id, code);
+    #else // IPADDRESS_IPV6_SCOPE_MAX_LENGTH <= 0
+        code = error_code::no_error;
     #endif // IPADDRESS_IPV6_SCOPE_MAX_LENGTH
     }
 
@@ -633,6 +647,8 @@ public:
     IPADDRESS_FORCE_INLINE void set_scope_id(const std::wstring& scope_id, error_code& code) IPADDRESS_NOEXCEPT {
     #if IPADDRESS_IPV6_SCOPE_MAX_LENGTH > 0
         internal::ipv6_set_scope<ipv6_address_base>::change(_data.scope_id, scope_id, code);
+    #else // IPADDRESS_IPV6_SCOPE_MAX_LENGTH <= 0
+        code = error_code::no_error;
     #endif // IPADDRESS_IPV6_SCOPE_MAX_LENGTH
     }
 
@@ -645,6 +661,8 @@ public:
     IPADDRESS_FORCE_INLINE void set_scope_id(const std::u16string& scope_id, error_code& code) IPADDRESS_NOEXCEPT {
     #if IPADDRESS_IPV6_SCOPE_MAX_LENGTH > 0
         internal::ipv6_set_scope<ipv6_address_base>::change(_data.scope_id, scope_id, code);
+    #else // IPADDRESS_IPV6_SCOPE_MAX_LENGTH <= 0
+        code = error_code::no_error;
     #endif // IPADDRESS_IPV6_SCOPE_MAX_LENGTH
     }
 
@@ -657,6 +675,8 @@ public:
     IPADDRESS_FORCE_INLINE void set_scope_id(const std::u32string& scope_id, error_code& code) IPADDRESS_NOEXCEPT {
     #if IPADDRESS_IPV6_SCOPE_MAX_LENGTH > 0
         internal::ipv6_set_scope<ipv6_address_base>::change(_data.scope_id, scope_id, code);
+    #else // IPADDRESS_IPV6_SCOPE_MAX_LENGTH <= 0
+        code = error_code::no_error;
     #endif // IPADDRESS_IPV6_SCOPE_MAX_LENGTH
     }
 
-- 
2.43.0


From f7908abe8eb7789bb10ea707bb82911a660ecaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:35 +0000
Subject: [PATCH 10/32] fix: refuse a prefix length beyond the address width in
 from_address

---
 include/ipaddress/ip-network-base.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/ipaddress/ip-network-base.hpp b/include/ipaddress/ip-network-base.hpp
index bee334c..518d49e 100644
--- a/include/ipaddress/ip-network-base.hpp
+++ b/include/ipaddress/ip-network-base.hpp
@@ -424,7 +424,7 @@ public:
      */
     IPADDRESS_NODISCARD_WHEN_NO_EXCEPTIONS static IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_network_base from_address(
         const ip_address_type& address, 
-        size_t prefixlen = ip_address_type::max_prefixlen, 
+        size_t prefixlen = ip_address_type::base_max_prefixlen, 
         bool strict = true
     ) IPADDRESS_NOEXCEPT_WHEN_NO_EXCEPTIONS {
         auto code = error_code::no_error;
@@ -452,14 +452,19 @@ public:
     static IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_network_base from_address(
         const ip_address_type& address, 
         error_code& code, 
-        size_t prefixlen = ip_address_type::max_prefixlen, 
+        size_t prefixlen = ip_address_type::base_max_prefixlen, 
         bool strict = true
     ) IPADDRESS_NOEXCEPT {
         code = error_code::no_error;
+        ip_network_base result;
+
+        if (prefixlen > ip_address_type::base_max_prefixlen) {
+            code = error_code::invalid_netmask;
+            return result;
+        }
 
         const auto netmask = ip_address_type::ip_from_prefix(prefixlen); 
 
-        ip_network_base result;
         result._network_address = ip_address_type::strict_netmask(address, netmask, strict, code);
 
         if (code != error_code::no_error) {
-- 
2.43.0


From 81e189384e1240f398e1dee3c96f89cdfd02f6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:55 +0000
Subject: [PATCH 11/32] fix: do not overflow on a large prefix difference in
 subnets

---
 include/ipaddress/ip-network-base.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ipaddress/ip-network-base.hpp b/include/ipaddress/ip-network-base.hpp
index 518d49e..b5706b3 100644
--- a/include/ipaddress/ip-network-base.hpp
+++ b/include/ipaddress/ip-network-base.hpp
@@ -1045,13 +1045,13 @@ public:
             prefixlen_diff = new_prefixlen.value() - prefixlen();
         }
 
-        auto new_prefix = prefixlen() + prefixlen_diff;
-
-        if (new_prefix > ip_address_type::base_max_prefixlen) {
+        if (prefixlen_diff > ip_address_type::base_max_prefixlen - prefixlen()) {
             code = error_code::invalid_prefixlen_diff;
             return subnets_sequence<ip_network_base<Base>>();
         }
 
+        auto new_prefix = prefixlen() + prefixlen_diff;
+
         return subnets_sequence<ip_network_base<Base>>(address, broadcast_address(), hostmask(), prefixlen_diff, new_prefix);
     }
 
-- 
2.43.0


From 91655e6bd3af9d957dda167d364c6df8af0369f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:21 +0000
Subject: [PATCH 12/32] fix: compute the supernet mask without shifting by the
 address width

---
 include/ipaddress/ip-network-base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ipaddress/ip-network-base.hpp b/include/ipaddress/ip-network-base.hpp
index b5706b3..76abdb3 100644
--- a/include/ipaddress/ip-network-base.hpp
+++ b/include/ipaddress/ip-network-base.hpp
@@ -1134,7 +1134,7 @@ public:
         }
 
         const auto new_prefix = prefixlen() - prefixlen_diff;
-        const auto address = ip_address_type::from_uint(network_address().to_uint() & (netmask().to_uint() << prefixlen_diff));
+        const auto address = ip_address_type::from_uint(network_address().to_uint() & ip_address_type::ip_from_prefix(new_prefix).to_uint());
         return ip_network_base<Base>::from_address(address, new_prefix);
     }
 
-- 
2.43.0


From 003a7bb315d83c26b3857cbfb57da03e29728875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:51 +0000
Subject: [PATCH 13/32] fix: uint128_t shifts by exactly 128 bits yield zero

---
 include/ipaddress/uint128.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ipaddress/uint128.hpp b/include/ipaddress/uint128.hpp
index e4dfa96..71b0462 100644
--- a/include/ipaddress/uint128.hpp
+++ b/include/ipaddress/uint128.hpp
@@ -950,7 +950,7 @@ public:
         if (!shift) {
             return *this;
         }
-        if (shift >= 64 && shift <= 128) {
+        if (shift >= 64 && shift < 128) {
             return { _lower << (shift - 64), 0 };
         }
         if (shift < 64 && shift > 0) {
@@ -973,7 +973,7 @@ public:
         if (!shift) {
             return *this;
         }
-        if (shift >= 64 && shift <= 128) {
+        if (shift >= 64 && shift < 128) {
             return { 0, _upper >> (shift - 64) };
         }
         if (shift < 64 && shift > 0) {
-- 
2.43.0


From bf08b117e36bc2160cffb6556b4b76da708f5148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:10 +0000
Subject: [PATCH 14/32] fix: require the zero prefix in ipv4_mapped

---
 include/ipaddress/ipv6-address.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/ipaddress/ipv6-address.hpp b/include/ipaddress/ipv6-address.hpp
index 6da9b95..05f5796 100644
--- a/include/ipaddress/ipv6-address.hpp
+++ b/include/ipaddress/ipv6-address.hpp
@@ -745,6 +745,11 @@ public:
      */
     IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE optional<ipv4_address> ipv4_mapped() const IPADDRESS_NOEXCEPT {
         const auto& b = bytes();
+        for (size_t i = 0; i < 10; ++i) {
+            if (b[i] != 0) {
+                return nullptr;
+            }
+        }
         if (b[10] != 0xFF || b[11] != 0xFF) {
             return nullptr;
         } 
-- 
2.43.0


From 5bd094abedba96d34628a917637856b24f975041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:32 +0000
Subject: [PATCH 15/32] fix: reject ill-formed and overlong UTF-8 sequences

---
 include/ipaddress/unicode.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/ipaddress/unicode.hpp b/include/ipaddress/unicode.hpp
index 2caa68e..68b20d5 100644
--- a/include/ipaddress/unicode.hpp
+++ b/include/ipaddress/unicode.hpp
@@ -61,17 +61,20 @@ struct utf8_reader {
                 
                 case 2:
                     symbol.value = (symbol.value << 6) | trailing_utf8_code_point(it, end, correct);
+                    correct = correct && symbol.value >= 0x80;
                     break;
                     
                 case 3:
                     symbol.value = (symbol.value << 6) | trailing_utf8_code_point(it, end, correct);
                     symbol.value = (symbol.value << 6) | trailing_utf8_code_point(it, end, correct);
+                    correct = correct && symbol.value >= 0x800;
                     break;
                     
                 case 4:
                     symbol.value = (symbol.value << 6) | trailing_utf8_code_point(it, end, correct);
                     symbol.value = (symbol.value << 6) | trailing_utf8_code_point(it, end, correct);
                     symbol.value = (symbol.value << 6) | trailing_utf8_code_point(it, end, correct);
+                    correct = correct && symbol.value >= 0x10000;
                     break;
                     
                 default:
@@ -79,7 +82,9 @@ struct utf8_reader {
                     break;
             }
         }
-        ++it;
+        if (it < end) {
+            ++it;
+        }
         if (!correct) {
             error = error_code::wrong_encoding_sequence;
             return '\0';
@@ -109,12 +114,11 @@ struct utf8_reader {
     }
 
     IPADDRESS_NODISCARD static IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE uint32_t trailing_utf8_code_point(const T*& it, const T* end, bool& correct) IPADDRESS_NOEXCEPT {
-        if (++it >= end) {
+        if (!correct || ++it >= end) {
             correct = false;
             return 0;
         } 
         if ((uint8_t(*it) & 0b11000000) == 0b10000000) {
-            correct = true;
             return uint8_t(*it) & 0b00111111;
         } 
         correct = false;
-- 
2.43.0


From fb817b85b1902798d73b3e5ab71fc547c1df5ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:06 +0000
Subject: [PATCH 16/32] fix: fixed_string::back returns the last character of
 the string

---
 include/ipaddress/fixed-string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ipaddress/fixed-string.hpp b/include/ipaddress/fixed-string.hpp
index 21d2020..1fe1e34 100644
--- a/include/ipaddress/fixed-string.hpp
+++ b/include/ipaddress/fixed-string.hpp
@@ -285,7 +285,7 @@ struct fixed_string {
      * @sa     front()
      */
     IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE const_reference back() const IPADDRESS_NOEXCEPT {
-        return _data[N - 1];
+        return _data[length - 1];
     }
 
     /**
-- 
2.43.0


From 5c91fa5ab5b78c5f50a727e388d751756976aca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:35 +0000
Subject: [PATCH 17/32] fix: reject empty and overflowing text in
 uint128_t::from_string

---
 include/ipaddress/uint128.hpp | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/include/ipaddress/uint128.hpp b/include/ipaddress/uint128.hpp
index 71b0462..c0d778d 100644
--- a/include/ipaddress/uint128.hpp
+++ b/include/ipaddress/uint128.hpp
@@ -1592,6 +1592,8 @@ private:
         error_code code = error_code::no_error;
         uint32_t error_symbol = 0;
         uint128_t result = 0;
+        const uint128_t max_head(0x1999999999999999ULL, 0x9999999999999999ULL); // (2^128 - 1) / 10
+        bool has_digits = false;
         const T* it = begin;
         while (it < end) {
             const auto c = internal::next_char_or_error(it, end, code, error_symbol);
@@ -1602,7 +1604,14 @@ private:
             } else if (c < '0' || c > '9') {
                 return nullptr;
             }
+            if (result > max_head || (result == max_head && c > '5')) {
+                return nullptr;
+            }
             result = result * 10 + (c - '0');
+            has_digits = true;
+        }
+        if (!has_digits) {
+            return nullptr;
         }
         return result;
     }
@@ -1612,6 +1621,7 @@ private:
         error_code code = error_code::no_error;
         uint32_t error_symbol = 0;
         uint128_t result = 0;
+        bool has_digits = false;
         const T* it = begin;
         while (it < end) {
             const auto c = internal::next_char_or_error(it, end, code, error_symbol);
@@ -1622,7 +1632,14 @@ private:
             } else if (c < '0' || c > '7') {
                 return nullptr;
             }
+            if (result._upper >> 61) {
+                return nullptr;
+            }
             result = result * 8 + (c - '0');
+            has_digits = true;
+        }
+        if (!has_digits) {
+            return nullptr;
         }
         return result;
     }
@@ -1633,6 +1650,7 @@ private:
         uint32_t error_symbol = 0;
         uint128_t result = 0;
         int digit = 0;
+        bool has_digits = false;
         const T* it = begin;
         while (it < end) {
             const auto c = internal::next_char_or_error(it, end, code, error_symbol);
@@ -1649,7 +1667,14 @@ private:
             } else {
                 return nullptr;
             }
+            if (result._upper >> 60) {
+                return nullptr;
+            }
             result = result * 16 + digit;
+            has_digits = true;
+        }
+        if (!has_digits) {
+            return nullptr;
         }
         return result;
     }
-- 
2.43.0


From 7f91f3b4e193c2260511165e2f5ec1a5159f4167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:09 +0000
Subject: [PATCH 18/32] fix: integer conversions do not depend on the byte
 order setting

---
 include/ipaddress/base-v4.hpp      |  4 ++--
 include/ipaddress/ipv6-address.hpp | 16 ++--------------
 2 files changed, 4 insertions(+), 16 deletions(-)

diff --git a/include/ipaddress/base-v4.hpp b/include/ipaddress/base-v4.hpp
index 01a532e..7b17646 100644
--- a/include/ipaddress/base-v4.hpp
+++ b/include/ipaddress/base-v4.hpp
@@ -131,7 +131,7 @@ protected:
     }
 
     IPADDRESS_NODISCARD static IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_address_base<Ext> ip_from_uint32(uint_type ip) IPADDRESS_NOEXCEPT {
-        ip = is_little_endian() ? swap_bytes(ip) : ip;
+        ip = swap_bytes(ip);
         return ip_address_base<Ext>({
             uint8_t(ip & 0xFF),
             uint8_t((ip >> 8) & 0xFF),
@@ -151,7 +151,7 @@ protected:
             (uint32_t(bytes[2]) << 16) | 
             (uint32_t(bytes[1]) << 8) | 
             (uint32_t(bytes[0]));
-        return is_little_endian() ? swap_bytes(ip) : ip;
+        return swap_bytes(ip);
     }
 
     IPADDRESS_NODISCARD static IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE size_t ip_to_chars(const base_type& bytes, format /*fmt*/, char (&result)[base_max_string_len + 1]) IPADDRESS_NOEXCEPT {
diff --git a/include/ipaddress/ipv6-address.hpp b/include/ipaddress/ipv6-address.hpp
index 05f5796..c68b6c2 100644
--- a/include/ipaddress/ipv6-address.hpp
+++ b/include/ipaddress/ipv6-address.hpp
@@ -691,13 +691,7 @@ public:
     IPADDRESS_NODISCARD static IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_address_base<ipv6_address_base> from_uint(uint_type ip) IPADDRESS_NOEXCEPT {
         ip_address_base<ipv6_address_base> result;
         auto& bytes = result._data.bytes;
-        int shift = 0;
-        int inc = 8;
-        if (is_little_endian()) {
-            shift = 56;
-            inc = -8;
-        }
-        for (int i = 0, s = shift; i < 8; ++i, s += inc) {
+        for (int i = 0, s = 56; i < 8; ++i, s -= 8) {
             bytes[i] = uint8_t(ip.upper() >> s);
             bytes[i + 8] = uint8_t(ip.lower() >> s);
         }
@@ -714,13 +708,7 @@ public:
         const auto& bytes = _data.bytes;
         uint64_t upper = 0;
         uint64_t lower = 0;
-        int shift = 0;
-        int inc = 8;
-        if (is_little_endian()) {
-            shift = 56;
-            inc = -8;
-        }
-        for (int i = 0, s = shift; i < 8; ++i, s += inc) {
+        for (int i = 0, s = 56; i < 8; ++i, s -= 8) {
             upper |= uint64_t(bytes[i]) << s;
             lower |= uint64_t(bytes[i + 8]) << s;
         }
-- 
2.43.0


From fa8dd76be8cafe6112491453f2d6d0c51d1afed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:55 +0000
Subject: [PATCH 19/32] fix: tell the last excluded-network element from the
 end iterator

---
 include/ipaddress/ip-network-iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ipaddress/ip-network-iterator.hpp b/include/ipaddress/ip-network-iterator.hpp
index a40e03c..005190a 100644
--- a/include/ipaddress/ip-network-iterator.hpp
+++ b/include/ipaddress/ip-network-iterator.hpp
@@ -575,7 +575,7 @@ public:
      * @return `true` if the iterators are equal, `false` otherwise.
      */
     IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE bool operator==(const ip_exclude_network_iterator& other) const IPADDRESS_NOEXCEPT {
-        return _current == other._current;
+        return _current == other._current && _other == other._other;
     }
 
     /**
-- 
2.43.0


From c55e5c587867c04e95ee1f42af63f493fed5d743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:26 +0000
Subject: [PATCH 20/32] fix: host sequences that end at the top of the address
 space

---
 include/ipaddress/ip-address-iterator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ipaddress/ip-address-iterator.hpp b/include/ipaddress/ip-address-iterator.hpp
index dcbfc15..e2a4357 100644
--- a/include/ipaddress/ip-address-iterator.hpp
+++ b/include/ipaddress/ip-address-iterator.hpp
@@ -891,7 +891,7 @@ public:
             const auto begin = value_type::from_uint(network_address.to_uint());
             const auto end = value_type::from_uint(broadcast_address.to_uint() + 1);
             _begin = const_iterator(begin);
-            _end = const_iterator(end);
+            _end = const_iterator(end, end < begin ? 1 : 0);
         } else if (prefixlen == max_prefixlen) {
             const auto begin = value_type::from_uint(network_address.to_uint());
             const auto end = value_type::from_uint(network_address.to_uint() + 1);
@@ -901,7 +901,7 @@ public:
             const auto begin = value_type::from_uint(network_address.to_uint() + 1);
             const auto end = value_type::from_uint(broadcast_address.to_uint() + (std::is_same<value_type, ipv6_address>::value ? 1 : 0));
             _begin = const_iterator(begin);
-            _end = const_iterator(end);
+            _end = const_iterator(end, end < begin ? 1 : 0);
         }
     }
 
-- 
2.43.0


From 9d5af845c906a0ed327b476040e4dbc4c85f9a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:00 +0000
Subject: [PATCH 21/32] fix: sequence iterators at negative distances and
 address space limits

---
 include/ipaddress/ip-address-iterator.hpp | 14 +++++++-------
 include/ipaddress/ip-any-iterator.hpp     | 20 ++++++++++++++++++++
 include/ipaddress/ip-network-iterator.hpp | 22 +++++-----------------
 3 files changed, 32 insertions(+), 24 deletions(-)

diff --git a/include/ipaddress/ip-address-iterator.hpp b/include/ipaddress/ip-address-iterator.hpp
index e2a4357..518bc46 100644
--- a/include/ipaddress/ip-address-iterator.hpp
+++ b/include/ipaddress/ip-address-iterator.hpp
@@ -555,7 +555,7 @@ public:
      * @return A reference to the updated iterator.
      */
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_address_iterator& operator+=(difference_type n) IPADDRESS_NOEXCEPT {
-        add(n);
+        n < 0 ? sub(uint_type(0) - uint_type(n)) : add(uint_type(n));
         return *this;
     }
 
@@ -581,7 +581,7 @@ public:
      * @return A reference to the updated iterator.
      */
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_address_iterator& operator-=(difference_type n) IPADDRESS_NOEXCEPT {
-        sub(n);
+        n < 0 ? add(uint_type(0) - uint_type(n)) : sub(uint_type(n));
         return *this;
     }
 
@@ -689,7 +689,7 @@ public:
      * @return The number of elements between this and the other iterator.
      */
     IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE difference_type operator-(const ip_address_iterator& other) const IPADDRESS_NOEXCEPT {
-        return difference_type(_offset - other._offset);
+        return *this < other ? ~difference_type(other.uint_diff(*this) - 1) : difference_type(uint_diff(other));
     }
 
     /**
@@ -792,7 +792,7 @@ private:
         const auto old = result._offset;
         ++result._offset;
         if (result._offset < old) {
-            result._carry = 1 - result._carry;
+            ++result._carry;
         }
         result._current = value_type::from_uint(result._offset);
         return result;
@@ -803,7 +803,7 @@ private:
         const auto old = result._offset;
         --result._offset;
         if (result._offset > old) {
-            result._carry = 1 - result._carry;
+            --result._carry;
         }
         result._current = value_type::from_uint(result._offset);
         return result;
@@ -814,7 +814,7 @@ private:
             const auto old = _offset;
             _offset += n;
             if (_offset < old) {
-                _carry = 1 - _carry;
+                ++_carry;
             }
             _current = value_type::from_uint(_offset);
         }
@@ -825,7 +825,7 @@ private:
             const auto old = _offset;
             _offset -= n;
             if (_offset > old) {
-                _carry = 1 - _carry;
+                --_carry;
             }
             _current = value_type::from_uint(_offset);
         }
diff --git a/include/ipaddress/ip-any-iterator.hpp b/include/ipaddress/ip-any-iterator.hpp
index a4fa14b..7c7e434 100644
--- a/include/ipaddress/ip-any-iterator.hpp
+++ b/include/ipaddress/ip-any-iterator.hpp
@@ -426,6 +426,26 @@ private:
         return _version == ip_version::V4 ? ip_any_iterator(_iter.iter4.reverse()) : ip_any_iterator(_iter.iter6.reverse());
     }
 
+    IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE void add(difference_type n) IPADDRESS_NOEXCEPT {
+        if (_version == ip_version::V4) {
+            _iter.iter4 += n;
+            _current = *_iter.iter4;
+        } else {
+            _iter.iter6 += n;
+            _current = *_iter.iter6;
+        }
+    }
+
+    IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE void sub(difference_type n) IPADDRESS_NOEXCEPT {
+        if (_version == ip_version::V4) {
+            _iter.iter4 -= n;
+            _current = *_iter.iter4;
+        } else {
+            _iter.iter6 -= n;
+            _current = *_iter.iter6;
+        }
+    }
+
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE void add(const uint128_t& n) IPADDRESS_NOEXCEPT {
         if (_version == ip_version::V4) {
             _iter.iter4 += uint32_t(n);
diff --git a/include/ipaddress/ip-network-iterator.hpp b/include/ipaddress/ip-network-iterator.hpp
index 005190a..028e440 100644
--- a/include/ipaddress/ip-network-iterator.hpp
+++ b/include/ipaddress/ip-network-iterator.hpp
@@ -169,7 +169,7 @@ public:
      * @return A reference to the updated iterator.
      */
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_network_iterator& operator+=(difference_type n) IPADDRESS_NOEXCEPT {
-        add(n);
+        n < 0 ? sub(uint_type(0) - uint_type(n)) : add(uint_type(n));
         return *this;
     }
 
@@ -195,7 +195,7 @@ public:
      * @return A reference to the updated iterator.
      */
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_network_iterator& operator-=(difference_type n) IPADDRESS_NOEXCEPT {
-        sub(n);
+        n < 0 ? add(uint_type(0) - uint_type(n)) : sub(uint_type(n));
         return *this;
     }
 
@@ -303,7 +303,7 @@ public:
      * @return The number of elements between this and the other iterator.
      */
     IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE difference_type operator-(const ip_network_iterator& other) const IPADDRESS_NOEXCEPT {
-        return difference_type(_it - other._it);
+        return *this < other ? ~difference_type(other.uint_diff(*this) - 1) : difference_type(uint_diff(other));
     }
 
     /**
@@ -403,25 +403,13 @@ public:
 private:
     IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_network_iterator base() const IPADDRESS_NOEXCEPT {
         auto result = *this;
-        const auto old = result._it._offset;
-        result._it._offset += _step;
-        if (result._it._offset < old) {
-            result._it._carry = 1 - result._it._carry;
-        }
-        result._it._current = ip_address_type::from_uint(result._it._offset);
-        result._current = value_type::from_address(*result._it, result._prefixlen);
+        result.add(1);
         return result;
     }
 
     IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_network_iterator reverse() const IPADDRESS_NOEXCEPT {
         auto result = *this;
-        const auto old = result._it._offset;
-        result._it._offset -= _step;
-        if (result._it._offset > old) {
-        result._it._carry = 1 - result._it._carry;
-        }
-        result._it._current = ip_address_type::from_uint(result._it._offset);
-        result._current = value_type::from_address(*result._it, result._prefixlen);
+        result.sub(1);
         return result;
     }
 
-- 
2.43.0


From ba370836041f6af621eda0aaaabb50a777485bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:30 +0000
Subject: [PATCH 22/32] fix: subnet sequences that span the whole address space

---
 include/ipaddress/ip-network-iterator.hpp | 26 +++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/include/ipaddress/ip-network-iterator.hpp b/include/ipaddress/ip-network-iterator.hpp
index 028e440..36bf4c8 100644
--- a/include/ipaddress/ip-network-iterator.hpp
+++ b/include/ipaddress/ip-network-iterator.hpp
@@ -67,7 +67,11 @@ public:
      *         which can correctly represent all addresses using the integer number uint128_t
      */
     IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE uint_type uint_diff(const ip_network_iterator& other) const IPADDRESS_NOEXCEPT {
-        return _it.uint_diff(other._it) / _step;
+        const auto diff = _it.uint_diff(other._it);
+        if (diff == 0 && _it._carry != other._it._carry) { // the whole address space
+            return _step != 0 ? (uint_type(0) - _step) / _step + 1 : 1;
+        }
+        return _step != 0 ? diff / _step : 0;
     }
 
     /**
@@ -414,12 +418,22 @@ private:
     }
 
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE void add(const uint_type& n) IPADDRESS_NOEXCEPT {
-        _it += _step * n;
+        const uint_type offset = _step * n;
+        if (offset == 0 && n != 0) { // the whole address space
+            ++_it._carry;
+        } else {
+            _it += offset;
+        }
         _current = value_type::from_address(*_it, _prefixlen);
     }
 
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE void sub(const uint_type& n) IPADDRESS_NOEXCEPT {
-        _it -= _step * n;
+        const uint_type offset = _step * n;
+        if (offset == 0 && n != 0) { // the whole address space
+            --_it._carry;
+        } else {
+            _it -= offset;
+        }
         _current = value_type::from_address(*_it, _prefixlen);
     }
 
@@ -722,10 +736,10 @@ public:
         const auto end_uint = broadcast_address.to_uint();
         const auto begin = ip_address_type::from_uint(begin_uint);
         const auto end = ip_address_type::from_uint(end_uint + 1);
-        const auto step = (hostmask.to_uint() >> prefixlen_diff) + 1;
+        const auto step = (prefixlen_diff != 0 ? hostmask.to_uint() >> (prefixlen_diff - 1) >> 1 : hostmask.to_uint()) + 1;
         _begin = const_iterator(begin, step, new_prefixlen);
-        _end = const_iterator(end, step, new_prefixlen, begin == end ? 1 : 0);
-        _size = (end_uint - begin_uint) / step + 1;
+        _end = const_iterator(end, step, new_prefixlen, end <= begin ? 1 : 0);
+        _size = step != 0 ? (end_uint - begin_uint) / step + 1 : difference_type(1);
     }
 
     /**
-- 
2.43.0


From 0c48daec478d8abe1390b7a5fad983a0e66285e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:17 +0000
Subject: [PATCH 23/32] fix: uint128_t text does not depend on the global
 locale

---
 include/ipaddress/uint128.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/ipaddress/uint128.hpp b/include/ipaddress/uint128.hpp
index c0d778d..6edd886 100644
--- a/include/ipaddress/uint128.hpp
+++ b/include/ipaddress/uint128.hpp
@@ -325,6 +325,7 @@ public:
     IPADDRESS_NODISCARD IPADDRESS_FORCE_INLINE std::string to_string(format fmt = format::decimal) const {
         if (_upper == 0) {
             std::ostringstream ss;
+            ss.imbue(std::locale::classic());
             switch (fmt) {
                 case format::octal:
                     ss << std::oct;
-- 
2.43.0


From 8405b5f9f3d80bc9b6fdeac57827f8a11f0592c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:17 +0000
Subject: [PATCH 24/32] fix: correctly rounded conversion of large uint128_t to
 floating point

---
 include/ipaddress/uint128.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ipaddress/uint128.hpp b/include/ipaddress/uint128.hpp
index 6edd886..536672e 100644
--- a/include/ipaddress/uint128.hpp
+++ b/include/ipaddress/uint128.hpp
@@ -1468,7 +1468,7 @@ private:
             return double(lower + upper);
         }
 
-        double lower = uint64_bits_to_double(two_pow_76_bits | ((uint64_t)(value >> 12) >> 12) | (value._lower & 0xFFFFFF)) - two_pow_76;
+        double lower = uint64_bits_to_double(two_pow_76_bits | ((uint64_t)(value >> 12) >> 12) | ((value._lower & 0xFFFFFF) ? 1 : 0)) - two_pow_76;
         double upper = uint64_bits_to_double(two_pow_128_bits | (uint64_t)(value >> 76)) - two_pow_128;
         return double(lower + upper);
     }
-- 
2.43.0


From b1a3e5b3c873f1b342ac89b048e44c2aad1b25c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:10 +0000
Subject: [PATCH 25/32] fix: byte_array<0> ordering operators did not compile
 without operator<=>

---
 include/ipaddress/byte-array.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ipaddress/byte-array.hpp b/include/ipaddress/byte-array.hpp
index 2156e3b..00e33f4 100644
--- a/include/ipaddress/byte-array.hpp
+++ b/include/ipaddress/byte-array.hpp
@@ -446,9 +446,9 @@ IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE bool operator!=(c
     IPADDRESS_EXPORT template <size_t N>
     IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE bool operator<(const byte_array<N>& lhs, const byte_array<N>& rhs) IPADDRESS_NOEXCEPT {
         for (size_t i = 0; i < N; ++i) {
-            if (lhs._data[i] < rhs._data[i]) {
+            if (lhs[i] < rhs[i]) {
                 return true;
-            } else if (lhs._data[i] != rhs._data[i]) {
+            } else if (lhs[i] != rhs[i]) {
                 break;
             }
         }
-- 
2.43.0


From e872f9f27e8662b5d2ac4e947912e6d6e71a81fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:10 +0000
Subject: [PATCH 26/32] fix: fixed_string orders characters as unsigned, like
 std::string

---
 include/ipaddress/fixed-string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ipaddress/fixed-string.hpp b/include/ipaddress/fixed-string.hpp
index 1fe1e34..1bb3fd4 100644
--- a/include/ipaddress/fixed-string.hpp
+++ b/include/ipaddress/fixed-string.hpp
@@ -317,7 +317,7 @@ struct fixed_string {
             const auto c1 = at(i);
             const auto c2 = rhs.at(i);
             if (c1 != c2) {
-                return int(c1) - int(c2);
+                return int(static_cast<unsigned char>(c1)) - int(static_cast<unsigned char>(c2));
             }
         }
 
-- 
2.43.0


From 3a872177cebb6e2cb388272caeae416e0ea6be06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:10 +0000
Subject: [PATCH 27/32] fix: fixed_string hash sign-extended high bytes, which
 made different strings collide

---
 include/ipaddress/fixed-string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ipaddress/fixed-string.hpp b/include/ipaddress/fixed-string.hpp
index 1bb3fd4..dcbb848 100644
--- a/include/ipaddress/fixed-string.hpp
+++ b/include/ipaddress/fixed-string.hpp
@@ -350,7 +350,7 @@ struct fixed_string {
         }
 
         for (size_t i = 0; i < size(); ++i) {
-            value ^= static_cast<size_t>(_data[i]);
+            value ^= static_cast<size_t>(static_cast<unsigned char>(_data[i]));
             value *= prime;
         }
         return value;
-- 
2.43.0


From c1687d4b45565f4b56c7c9e3265c3081aedb70ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:08 +0000
Subject: [PATCH 28/32] fix: compare with a null pointer when an IPv6 text has
 a scope id but no address

---
 include/ipaddress/base-v6.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/ipaddress/base-v6.hpp b/include/ipaddress/base-v6.hpp
index 8dca7a3..b26db01 100644
--- a/include/ipaddress/base-v6.hpp
+++ b/include/ipaddress/base-v6.hpp
@@ -304,6 +304,7 @@ private:
         auto it = begin;
         auto scope = false;
         ip_and_scope<Iter> result{};
+        result.end_ip = begin;
         while (it < end) {
             const auto c = internal::next_char_or_error(it, end, error, error_value);
             if (error != error_code::no_error) {
-- 
2.43.0


From b99672449a686054ff51cd8c4a34485441645c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:45 +0000
Subject: [PATCH 29/32] fix: let pre-C++20 literals hold the longest IPv6 text
 (six groups and an embedded IPv4 address)

---
 include/ipaddress/base-v6.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ipaddress/base-v6.hpp b/include/ipaddress/base-v6.hpp
index b26db01..a044c2d 100644
--- a/include/ipaddress/base-v6.hpp
+++ b/include/ipaddress/base-v6.hpp
@@ -46,7 +46,7 @@ public:
 
     static constexpr ip_version base_version = ip_version::V6;
     static constexpr size_t base_size = 16;
-    static constexpr size_t base_max_string_len = 41 + IPADDRESS_IPV6_SCOPE_MAX_LENGTH;
+    static constexpr size_t base_max_string_len = 46 + IPADDRESS_IPV6_SCOPE_MAX_LENGTH;
     static constexpr size_t base_max_prefixlen = base_size * 8;
 
     /**
-- 
2.43.0


From 163eef4ea4bed60e511d1cc1ddcd1ef883fcc9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:49 +0000
Subject: [PATCH 30/32] fix: error messages must not depend on the global
 locale

With a digit-grouping global locale the code point of a symbol was printed
as {U+e,2,3,a} and numbers were grouped as well.
---
 include/ipaddress/errors.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/ipaddress/errors.hpp b/include/ipaddress/errors.hpp
index e5e3bdc..fd62929 100644
--- a/include/ipaddress/errors.hpp
+++ b/include/ipaddress/errors.hpp
@@ -161,6 +161,7 @@ private:
     template <typename... Args>
     static std::string concatenate(const Args&... args) {
         std::ostringstream ss;
+        ss.imbue(std::locale::classic());
         concat(ss, args...);
         return ss.str();
     }
-- 
2.43.0


From b9b58b0034f8dd5f34b7d3982fbf06b9562aaf81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:05 +0000
Subject: [PATCH 31/32] fix: report running out of memory when a uint128_t is
 turned into a string

The string stream swallowed std::bad_alloc, so to_string, to_wstring and the
others returned an empty or cut-off number.
---
 include/ipaddress/uint128.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/ipaddress/uint128.hpp b/include/ipaddress/uint128.hpp
index 536672e..486b195 100644
--- a/include/ipaddress/uint128.hpp
+++ b/include/ipaddress/uint128.hpp
@@ -325,6 +325,7 @@ public:
     IPADDRESS_NODISCARD IPADDRESS_FORCE_INLINE std::string to_string(format fmt = format::decimal) const {
         if (_upper == 0) {
             std::ostringstream ss;
+            ss.exceptions(std::ios_base::badbit);
             ss.imbue(std::locale::classic());
             switch (fmt) {
                 case format::octal:
@@ -1517,6 +1518,7 @@ private:
 
     IPADDRESS_NODISCARD static IPADDRESS_FORCE_INLINE std::string uint128_to_dec_str(uint128_t value) {
         std::ostringstream ss;
+        ss.exceptions(std::ios_base::badbit);
 
         do {
             const auto q = value / 10;
@@ -1534,6 +1536,7 @@ private:
 
     IPADDRESS_NODISCARD static IPADDRESS_FORCE_INLINE std::string uint128_to_oct_str(uint128_t value) {
         std::ostringstream ss;
+        ss.exceptions(std::ios_base::badbit);
 
         do {
             const auto q = value / 8;
@@ -1553,6 +1556,7 @@ private:
         constexpr char digits[] = "0123456789abcdef";
 
         std::ostringstream ss;
+        ss.exceptions(std::ios_base::badbit);
         do {
             const auto q = value / 16;
             const auto r = value - q * 16;
-- 
2.43.0


From 95525b069488b1f480ce90bc20d6af568b9c2e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:16 +0000
Subject: [PATCH 32/32] fix: the registry of special networks must be usable
 during static initialization (C++11)

Before C++14 the tables were static data members of a class template, which
are initialised in no particular order: until that had happened is_private,
is_global and the others answered from zeroed networks that contain every
address. They are now initialised on first use.
---
 include/ipaddress/ip-networks.hpp | 110 ++++++++++++++----------------
 1 file changed, 50 insertions(+), 60 deletions(-)

diff --git a/include/ipaddress/ip-networks.hpp b/include/ipaddress/ip-networks.hpp
index c3e5344..e223519 100644
--- a/include/ipaddress/ip-networks.hpp
+++ b/include/ipaddress/ip-networks.hpp
@@ -22,35 +22,14 @@ namespace internal {
 
 template <typename>
 struct networks {
-#if __cpp_constexpr < 201304L
-    static const ipv4_network ipv4_private_networks[];
-    static const ipv6_network ipv6_private_networks[];
-
-    static const ipv4_network ipv4_is_public_network;
-
-    static const ipv4_network ipv4_reserved_network;
-    static const ipv6_network ipv6_reserved_networks[];
-
-    static const ipv4_network ipv4_is_multicast;
-    static const ipv6_network ipv6_is_multicast;
-
-    static const ipv4_network ipv4_is_loopback;
-
-    static const ipv4_network ipv4_is_link_local;
-    static const ipv6_network ipv6_is_link_local;
-
-    static const ipv6_network ipv6_is_site_local;
-};
-#endif
-
 // Private networks
 #if __cpp_constexpr >= 201304L
 static constexpr ipv4_network
 #else
-template <typename T> const ipv4_network networks<T>::
+const ipv4_network
 #endif
     // NOLINTNEXTLINE(cert-err58-cpp): for C++11
-    ipv4_private_networks[] = {
+    ipv4_private_networks[14] = {
         ipv4_network::parse("0.0.0.0/8"),
         ipv4_network::parse("10.0.0.0/8"),
         ipv4_network::parse("127.0.0.0/8"),
@@ -70,10 +49,10 @@ template <typename T> const ipv4_network networks<T>::
 #if __cpp_constexpr >= 201304L
 static constexpr ipv6_network
 #else
-template <typename T> const ipv6_network networks<T>::
+const ipv6_network
 #endif
     // NOLINTNEXTLINE(cert-err58-cpp): for C++11
-    ipv6_private_networks[] = {
+    ipv6_private_networks[10] = {
         ipv6_network::parse("::1/128"),
         ipv6_network::parse("::/128"),
         ipv6_network::parse("::ffff:0:0/96"),
@@ -90,7 +69,7 @@ template <typename T> const ipv6_network networks<T>::
 #if __cpp_constexpr >= 201304L
 static constexpr ipv4_network
 #else
-template <typename T> const ipv4_network networks<T>::
+const ipv4_network
 #endif
     // NOLINTNEXTLINE(cert-err58-cpp): for C++11
     ipv4_is_public_network = ipv4_network::parse("100.64.0.0/10");
@@ -99,7 +78,7 @@ template <typename T> const ipv4_network networks<T>::
 #if __cpp_constexpr >= 201304L
 static constexpr ipv4_network
 #else
-template <typename T> const ipv4_network networks<T>::
+const ipv4_network
 #endif
     // NOLINTNEXTLINE(cert-err58-cpp): for C++11
     ipv4_reserved_network = ipv4_network::parse("240.0.0.0/4");
@@ -107,10 +86,10 @@ template <typename T> const ipv4_network networks<T>::
 #if __cpp_constexpr >= 201304L
 static constexpr ipv6_network
 #else
-template <typename T> const ipv6_network networks<T>::
+const ipv6_network
 #endif
     // NOLINTNEXTLINE(cert-err58-cpp): for C++11
-    ipv6_reserved_networks[] = {
+    ipv6_reserved_networks[15] = {
         ipv6_network::parse("::/8"),
         ipv6_network::parse("100::/8"),
         ipv6_network::parse("200::/7"),
@@ -132,7 +111,7 @@ template <typename T> const ipv6_network networks<T>::
 #if __cpp_constexpr >= 201304L
 static constexpr ipv4_network
 #else
-template <typename T> const ipv4_network networks<T>::
+const ipv4_network
 #endif
     // NOLINTNEXTLINE(cert-err58-cpp): for C++11
     ipv4_is_multicast = ipv4_network::parse("224.0.0.0/4");
@@ -140,7 +119,7 @@ template <typename T> const ipv4_network networks<T>::
 #if __cpp_constexpr >= 201304L
 static constexpr ipv6_network
 #else
-template <typename T> const ipv6_network networks<T>::
+const ipv6_network
 #endif
     // NOLINTNEXTLINE(cert-err58-cpp): for C++11
     ipv6_is_multicast = ipv6_network::parse("ff00::/8");
@@ -149,7 +128,7 @@ template <typename T> const ipv6_network networks<T>::
 #if __cpp_constexpr >= 201304L
 static constexpr ipv4_network
 #else
-template <typename T> const ipv4_network networks<T>::
+const ipv4_network
 #endif
     // NOLINTNEXTLINE(cert-err58-cpp): for C++11
     ipv4_is_loopback = ipv4_network::parse("127.0.0.0/8");
@@ -158,7 +137,7 @@ template <typename T> const ipv4_network networks<T>::
 #if __cpp_constexpr >= 201304L
 static constexpr ipv4_network
 #else
-template <typename T> const ipv4_network networks<T>::
+const ipv4_network
 #endif
     // NOLINTNEXTLINE(cert-err58-cpp): for C++11
     ipv4_is_link_local = ipv4_network::parse("169.254.0.0/16");
@@ -166,7 +145,7 @@ template <typename T> const ipv4_network networks<T>::
 #if __cpp_constexpr >= 201304L
 static constexpr ipv6_network
 #else
-template <typename T> const ipv6_network networks<T>::
+const ipv6_network
 #endif
     // NOLINTNEXTLINE(cert-err58-cpp): for C++11
     ipv6_is_link_local = ipv6_network::parse("fe80::/10");
@@ -175,19 +154,20 @@ template <typename T> const ipv6_network networks<T>::
 #if __cpp_constexpr >= 201304L
 static constexpr ipv6_network
 #else
-template <typename T> const ipv6_network networks<T>::
+const ipv6_network
 #endif
     // NOLINTNEXTLINE(cert-err58-cpp): for C++11
     ipv6_is_site_local = ipv6_network::parse("fec0::/10");
 
-#if __cpp_constexpr >= 201304L
 };
 
+#if __cpp_constexpr >= 201304L
+
 template <typename T>
-constexpr ipv4_network networks<T>::ipv4_private_networks[];
+constexpr ipv4_network networks<T>::ipv4_private_networks[14];
 
 template <typename T>
-constexpr ipv6_network networks<T>::ipv6_private_networks[];
+constexpr ipv6_network networks<T>::ipv6_private_networks[10];
 
 template <typename T>
 constexpr ipv4_network networks<T>::ipv4_is_public_network;
@@ -196,7 +176,7 @@ template <typename T>
 constexpr ipv4_network networks<T>::ipv4_reserved_network;
 
 template <typename T>
-constexpr ipv6_network networks<T>::ipv6_reserved_networks[];
+constexpr ipv6_network networks<T>::ipv6_reserved_networks[15];
 
 template <typename T>
 constexpr ipv4_network networks<T>::ipv4_is_multicast;
@@ -216,9 +196,19 @@ constexpr ipv6_network networks<T>::ipv6_is_link_local;
 template <typename T>
 constexpr ipv6_network networks<T>::ipv6_is_site_local;
 
-#endif
+IPADDRESS_NODISCARD constexpr IPADDRESS_FORCE_INLINE networks<int> nets() IPADDRESS_NOEXCEPT {
+    return {};
+}
 
-using nets = networks<int>;
+#else
+
+// initialized on first use, which may be during static initialization
+IPADDRESS_NODISCARD IPADDRESS_FORCE_INLINE const networks<int>& nets() IPADDRESS_NOEXCEPT {
+    static const networks<int> instance;
+    return instance;
+}
+
+#endif
 
 template <typename T, int N>
 IPADDRESS_NODISCARD constexpr IPADDRESS_FORCE_INLINE int array_size(const T (&)[N]) IPADDRESS_NOEXCEPT {
@@ -233,9 +223,9 @@ struct props<ipv4_network> {
     IPADDRESS_NODISCARD static IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE bool is_private(const ipv4_network& net) IPADDRESS_NOEXCEPT {
         const auto& address = net.network_address();
         const auto broadcast = net.broadcast_address();
-        constexpr auto count = array_size(nets::ipv4_private_networks);
+        const auto count = array_size(nets().ipv4_private_networks);
         for (int i = 0; i < count; ++i) {
-            if (nets::ipv4_private_networks[i].contains(address) && nets::ipv4_private_networks[i].contains(broadcast)) {
+            if (nets().ipv4_private_networks[i].contains(address) && nets().ipv4_private_networks[i].contains(broadcast)) {
                 return true;
             }
         }
@@ -243,7 +233,7 @@ struct props<ipv4_network> {
     }
     
     IPADDRESS_NODISCARD static IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE bool is_global(const ipv4_network& net) IPADDRESS_NOEXCEPT {
-        const auto& network = nets::ipv4_is_public_network;
+        const auto& network = nets().ipv4_is_public_network;
         const auto& address = net.network_address();
         const auto broadcast = net.broadcast_address();
         return !(network.contains(address) && network.contains(broadcast)) && !is_private(net);
@@ -255,9 +245,9 @@ struct props<ipv6_network> {
     IPADDRESS_NODISCARD static IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE bool is_private(const ipv6_network& net) IPADDRESS_NOEXCEPT {
         const auto& address = net.network_address();
         const auto broadcast = net.broadcast_address();
-        constexpr auto count = array_size(nets::ipv6_private_networks);
+        const auto count = array_size(nets().ipv6_private_networks);
         for (int i = 0; i < count; ++i) {
-            if (nets::ipv6_private_networks[i].contains(address) && nets::ipv6_private_networks[i].contains(broadcast)) {
+            if (nets().ipv6_private_networks[i].contains(address) && nets().ipv6_private_networks[i].contains(broadcast)) {
                 return true;
             }
         }
@@ -272,9 +262,9 @@ struct props<ipv6_network> {
 template <>
 struct props<ipv4_address> {
     IPADDRESS_NODISCARD static IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE bool is_private(const ipv4_address& ip) IPADDRESS_NOEXCEPT {
-        constexpr auto count = array_size(nets::ipv4_private_networks);
+        const auto count = array_size(nets().ipv4_private_networks);
         for (int i = 0; i < count; ++i) {
-            if (nets::ipv4_private_networks[i].contains(ip)) {
+            if (nets().ipv4_private_networks[i].contains(ip)) {
                 return true;
             }
         }
@@ -282,23 +272,23 @@ struct props<ipv4_address> {
     }
 
     IPADDRESS_NODISCARD static IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE bool is_global(const ipv4_address& ip) IPADDRESS_NOEXCEPT {
-        return !nets::ipv4_is_public_network.contains(ip) && !is_private(ip);
+        return !nets().ipv4_is_public_network.contains(ip) && !is_private(ip);
     }
 
     IPADDRESS_NODISCARD static IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE bool is_multicast(const ipv4_address& ip) IPADDRESS_NOEXCEPT {
-        return nets::ipv4_is_multicast.contains(ip);
+        return nets().ipv4_is_multicast.contains(ip);
     }
 
     IPADDRESS_NODISCARD static IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE bool is_reserved(const ipv4_address& ip) IPADDRESS_NOEXCEPT {
-        return nets::ipv4_reserved_network.contains(ip);
+        return nets().ipv4_reserved_network.contains(ip);
     }
 
     IPADDRESS_NODISCARD static IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE bool is_loopback(const ipv4_address& ip) IPADDRESS_NOEXCEPT {
-        return nets::ipv4_is_loopback.contains(ip);
+        return nets().ipv4_is_loopback.contains(ip);
     }
 
     IPADDRESS_NODISCARD static IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE bool is_link_local(const ipv4_address& ip) IPADDRESS_NOEXCEPT {
-        return nets::ipv4_is_link_local.contains(ip);
+        return nets().ipv4_is_link_local.contains(ip);
     }
 };
 
@@ -311,9 +301,9 @@ struct props<ipv6_address> {
             return ipv4->is_private();
         }
 
-        constexpr auto count = array_size(nets::ipv6_private_networks);
+        const auto count = array_size(nets().ipv6_private_networks);
         for (int i = 0; i < count; ++i) {
-            if (nets::ipv6_private_networks[i].contains(ip)) {
+            if (nets().ipv6_private_networks[i].contains(ip)) {
                 return true;
             }
         }
@@ -326,13 +316,13 @@ struct props<ipv6_address> {
     }
 
     IPADDRESS_NODISCARD static IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE bool is_multicast(const ipv6_address& ip) IPADDRESS_NOEXCEPT {
-        return nets::ipv6_is_multicast.contains(ip);
+        return nets().ipv6_is_multicast.contains(ip);
     }
 
     IPADDRESS_NODISCARD static IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE bool is_reserved(const ipv6_address& ip) IPADDRESS_NOEXCEPT {
-        constexpr auto count = array_size(nets::ipv6_reserved_networks);
+        const auto count = array_size(nets().ipv6_reserved_networks);
         for (int i = 0; i < count; ++i) {
-            if (nets::ipv6_reserved_networks[i].contains(ip)) {
+            if (nets().ipv6_reserved_networks[i].contains(ip)) {
                 return true;
             }
         }
@@ -348,7 +338,7 @@ struct props<ipv6_address> {
     }
 
     IPADDRESS_NODISCARD static IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE bool is_link_local(const ipv6_address& ip) IPADDRESS_NOEXCEPT {
-        return nets::ipv6_is_link_local.contains(ip);
+        return nets().ipv6_is_link_local.contains(ip);
     }
 };
 
@@ -396,7 +386,7 @@ IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE bool ip_address_b
 
 IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE bool ipv6_address_base::is_site_local() const IPADDRESS_NOEXCEPT {
     ipv6_address address(bytes());
-    return internal::nets::ipv6_is_site_local.contains(address);
+    return internal::nets().ipv6_is_site_local.contains(address);
 }
 
 } // namespace IPADDRESS_NAMESPACE
-- 
2.43.0

