From 9e51d739145b2d323640d8ff4be04831b2fc5787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:27 +0000
Subject: [PATCH 01/39] fix: linear_allocator and stack_allocator served
 requests whose aligned size wraps around

---
 include/ktl/allocators/linear_allocator.h | 4 ++++
 include/ktl/allocators/stack_allocator.h  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/ktl/allocators/linear_allocator.h b/include/ktl/allocators/linear_allocator.h
index 7d3508f..8fd192e 100644
--- a/include/ktl/allocators/linear_allocator.h
+++ b/include/ktl/allocators/linear_allocator.h
@@ -74,6 +74,10 @@ namespace ktl
 		*/
 		void* allocate(size_t n) noexcept
 		{
+			// Anything larger than this would overflow when aligned
+			if (n > Size)
+				return nullptr;
+
 			size_t totalSize = n + detail::align_to_architecture(n);
 
 			if ((size_t(m_Free - m_Data) + totalSize) > Size)
diff --git a/include/ktl/allocators/stack_allocator.h b/include/ktl/allocators/stack_allocator.h
index 324b489..6caa0c3 100644
--- a/include/ktl/allocators/stack_allocator.h
+++ b/include/ktl/allocators/stack_allocator.h
@@ -62,6 +62,10 @@ namespace ktl
 #pragma region Allocation
 		void* allocate(size_t n) noexcept
 		{
+			// Anything larger than this would overflow when aligned
+			if (n > Size)
+				return nullptr;
+
 			size_t totalSize = n + detail::align_to_architecture(n);
 
 			if ((size_t(m_Block->Free - m_Block->Data) + totalSize) > Size)
-- 
2.43.0


From 8ad17a4f8da3a16af57d41598e2e734c29eebb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:27 +0000
Subject: [PATCH 02/39] fix: an empty allocation from a full linear_allocator
 or stack_allocator was not owned by it

---
 include/ktl/allocators/linear_allocator.h | 4 ++++
 include/ktl/allocators/stack_allocator.h  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/ktl/allocators/linear_allocator.h b/include/ktl/allocators/linear_allocator.h
index 8fd192e..e718f44 100644
--- a/include/ktl/allocators/linear_allocator.h
+++ b/include/ktl/allocators/linear_allocator.h
@@ -83,6 +83,10 @@ namespace ktl
 			if ((size_t(m_Free - m_Data) + totalSize) > Size)
 				return nullptr;
 
+			// The location one past the end isn't owned, not even for an empty allocation
+			if (m_Free == m_Data + Size)
+				return nullptr;
+
 			char* current = m_Free;
 
 			m_Free += totalSize;
diff --git a/include/ktl/allocators/stack_allocator.h b/include/ktl/allocators/stack_allocator.h
index 6caa0c3..452ec11 100644
--- a/include/ktl/allocators/stack_allocator.h
+++ b/include/ktl/allocators/stack_allocator.h
@@ -71,6 +71,10 @@ namespace ktl
 			if ((size_t(m_Block->Free - m_Block->Data) + totalSize) > Size)
 				return nullptr;
 
+			// The location one past the end isn't owned, not even for an empty allocation
+			if (m_Block->Free == m_Block->Data + Size)
+				return nullptr;
+
 			char* current = m_Block->Free;
 
 			m_Block->Free += totalSize;
-- 
2.43.0


From 2fda998674217199aeb425c82a7262587605391b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:27 +0000
Subject: [PATCH 03/39] fix: max_size of linear_allocator and stack_allocator
 counted a partial chunk which cannot be allocated

---
 include/ktl/allocators/linear_allocator.h | 3 ++-
 include/ktl/allocators/stack_allocator.h  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/ktl/allocators/linear_allocator.h b/include/ktl/allocators/linear_allocator.h
index e718f44..cae56a9 100644
--- a/include/ktl/allocators/linear_allocator.h
+++ b/include/ktl/allocators/linear_allocator.h
@@ -125,7 +125,8 @@ namespace ktl
 		*/
 		size_t max_size() const noexcept
 		{
-			return Size;
+			// Allocations are rounded up to the alignment, so a partial chunk at the end can't be used
+			return Size - (Size & detail::ALIGNMENT_MASK);
 		}
 
 		/**
diff --git a/include/ktl/allocators/stack_allocator.h b/include/ktl/allocators/stack_allocator.h
index 452ec11..faf387e 100644
--- a/include/ktl/allocators/stack_allocator.h
+++ b/include/ktl/allocators/stack_allocator.h
@@ -101,7 +101,8 @@ namespace ktl
 #pragma region Utility
 		size_t max_size() const noexcept
 		{
-			return Size;
+			// Allocations are rounded up to the alignment, so a partial chunk at the end can't be used
+			return Size - (Size & detail::ALIGNMENT_MASK);
 		}
 
 		bool owns(void* p) const noexcept
-- 
2.43.0


From 3924df7ba9b2f4eb1f692474f8d1571b21dbc86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:12 +0000
Subject: [PATCH 04/39] fix: type_allocator served requests whose size in bytes
 wraps around

---
 include/ktl/allocators/type_allocator.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/ktl/allocators/type_allocator.h b/include/ktl/allocators/type_allocator.h
index fc14566..e742152 100644
--- a/include/ktl/allocators/type_allocator.h
+++ b/include/ktl/allocators/type_allocator.h
@@ -5,6 +5,7 @@
 
 #include "type_allocator_fwd.h"
 
+#include <limits>
 #include <memory>
 #include <type_traits>
 
@@ -98,6 +99,10 @@ namespace ktl
 		value_type* allocate(size_t n)
 			noexcept(noexcept(m_Alloc.allocate(n)))
 		{
+			// The size in bytes has to be representable
+			if (n > (std::numeric_limits<size_t>::max)() / sizeof(value_type))
+				return nullptr;
+
 			return reinterpret_cast<value_type*>(m_Alloc.allocate(sizeof(value_type) * n));
 		}
 
-- 
2.43.0


From aef282a1279991596b088a319c6afb8e8b0d8eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:12 +0000
Subject: [PATCH 05/39] fix: overflow served requests whose size including the
 guards wraps around

---
 include/ktl/allocators/overflow.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/ktl/allocators/overflow.h b/include/ktl/allocators/overflow.h
index 96ab73d..0d256bf 100644
--- a/include/ktl/allocators/overflow.h
+++ b/include/ktl/allocators/overflow.h
@@ -7,6 +7,7 @@
 #include "type_allocator.h"
 
 #include <cstring>
+#include <limits>
 #include <memory>
 #include <ostream>
 #include <type_traits>
@@ -104,6 +105,10 @@ namespace ktl
 		void* allocate(size_type n)
 			noexcept(detail::has_nothrow_allocate_v<Alloc>)
 		{
+			// The size including both guards has to be representable
+			if (n > (std::numeric_limits<size_type>::max)() - OVERFLOW_SIZE * 2)
+				return nullptr;
+
 			m_Allocs += n;
 
 			size_type size = n + OVERFLOW_SIZE * 2;
-- 
2.43.0


From a10e907e4f5aaeb8d2cd8c184f2eb7a4da0c8b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:12 +0000
Subject: [PATCH 06/39] fix: overflow reported failed allocations as leaked
 memory

---
 include/ktl/allocators/overflow.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/ktl/allocators/overflow.h b/include/ktl/allocators/overflow.h
index 0d256bf..e8571a2 100644
--- a/include/ktl/allocators/overflow.h
+++ b/include/ktl/allocators/overflow.h
@@ -109,14 +109,14 @@ namespace ktl
 			if (n > (std::numeric_limits<size_type>::max)() - OVERFLOW_SIZE * 2)
 				return nullptr;
 
-			m_Allocs += n;
-
 			size_type size = n + OVERFLOW_SIZE * 2;
 			char* ptr = reinterpret_cast<char*>(m_Alloc.allocate(size));
 
 			if (!ptr)
 				return nullptr;
 
+			m_Allocs += n;
+
 			std::memset(ptr, OVERFLOW_PATTERN, OVERFLOW_SIZE);
 			std::memset(ptr + OVERFLOW_SIZE + n, OVERFLOW_PATTERN, OVERFLOW_SIZE);
 
@@ -133,10 +133,10 @@ namespace ktl
 		{
 			KTL_ASSERT(p != nullptr);
 
-			m_Allocs -= n;
-
 			if (p)
 			{
+				m_Allocs -= n;
+
 				unsigned char* ptr = reinterpret_cast<unsigned char*>(p);
 
 				size_t before = 0;
-- 
2.43.0


From 4e359297f35352f46d2fa66df4ff9af19b573d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:12 +0000
Subject: [PATCH 07/39] fix: overflow counted constructors which threw as
 constructed objects

---
 include/ktl/allocators/overflow.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/ktl/allocators/overflow.h b/include/ktl/allocators/overflow.h
index e8571a2..2c5de01 100644
--- a/include/ktl/allocators/overflow.h
+++ b/include/ktl/allocators/overflow.h
@@ -185,12 +185,13 @@ namespace ktl
 			(detail::has_construct_v<Alloc, T*, Args...> && detail::has_nothrow_construct_v<Alloc, T*, Args...>) ||
 			std::is_nothrow_constructible_v<T, Args...>)
 		{
-			m_Constructs++;
-
 			if constexpr (detail::has_construct_v<Alloc, T*, Args...>)
 				m_Alloc.construct(p, std::forward<Args>(args)...);
 			else
 				::new(p) T(std::forward<Args>(args)...);
+
+			// Only counts if the constructor didn't throw
+			m_Constructs++;
 		}
 
 		/**
-- 
2.43.0


From d438e65e9d8b47f584d859626b7a467cd59eaf3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:12 +0000
Subject: [PATCH 08/39] fix: a moved-from overflow still reported what was
 outstanding when it was moved

---
 include/ktl/allocators/overflow.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/ktl/allocators/overflow.h b/include/ktl/allocators/overflow.h
index 2c5de01..625151a 100644
--- a/include/ktl/allocators/overflow.h
+++ b/include/ktl/allocators/overflow.h
@@ -55,7 +55,17 @@ namespace ktl
 
 		overflow(const overflow&) = default;
 
-		overflow(overflow&&) = default;
+		overflow(overflow&& other)
+			noexcept(std::is_nothrow_move_constructible_v<Alloc>) :
+			m_Stream(other.m_Stream),
+			m_Alloc(std::move(other.m_Alloc)),
+			m_Allocs(other.m_Allocs),
+			m_Constructs(other.m_Constructs)
+		{
+			// What is outstanding is now only outstanding here
+			other.m_Allocs = 0;
+			other.m_Constructs = 0;
+		}
 
 		~overflow()
 		{
-- 
2.43.0


From b066b7e0fe105f9aeff34e662d6de2e96c0f6db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:12 +0000
Subject: [PATCH 09/39] fix: max_size of overflow, freelist and segragator
 promised sizes which they never serve

---
 include/ktl/allocators/freelist.h   | 3 ++-
 include/ktl/allocators/overflow.h   | 5 ++++-
 include/ktl/allocators/segragator.h | 7 ++++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/ktl/allocators/freelist.h b/include/ktl/allocators/freelist.h
index c7479c9..055632d 100644
--- a/include/ktl/allocators/freelist.h
+++ b/include/ktl/allocators/freelist.h
@@ -188,7 +188,8 @@ namespace ktl
 		max_size() const
 			noexcept(detail::has_nothrow_max_size_v<A>)
 		{
-			return m_Alloc.max_size();
+			// Every allocation takes up Max, and nothing larger is ever allocated
+			return m_Alloc.max_size() >= Max ? Max : 0;
 		}
 
 		/**
diff --git a/include/ktl/allocators/overflow.h b/include/ktl/allocators/overflow.h
index 625151a..2b54b91 100644
--- a/include/ktl/allocators/overflow.h
+++ b/include/ktl/allocators/overflow.h
@@ -234,7 +234,10 @@ namespace ktl
 		max_size() const
 			noexcept(detail::has_nothrow_max_size_v<A>)
 		{
-			return m_Alloc.max_size();
+			// Part of every allocation is used for the guards
+			size_type size = m_Alloc.max_size();
+
+			return size > OVERFLOW_SIZE * 2 ? size - OVERFLOW_SIZE * 2 : 0;
 		}
 
 		/**
diff --git a/include/ktl/allocators/segragator.h b/include/ktl/allocators/segragator.h
index 82c124c..13017fd 100644
--- a/include/ktl/allocators/segragator.h
+++ b/include/ktl/allocators/segragator.h
@@ -5,6 +5,7 @@
 #include "segragator_fwd.h"
 #include "type_allocator.h"
 
+#include <algorithm>
 #include <memory>
 #include <type_traits>
 
@@ -181,7 +182,11 @@ namespace ktl
 		max_size() const
 			noexcept(detail::has_nothrow_max_size_v<Primary> && detail::has_nothrow_max_size_v<Fallback>)
 		{
-			return (std::max)(m_Primary.max_size(), m_Fallback.max_size());
+			// The primary is only used up to the threshold, the fallback only beyond it
+			size_type primary = (std::min)(size_type(Threshold), size_type(m_Primary.max_size()));
+			size_type fallback = m_Fallback.max_size();
+
+			return fallback > Threshold ? fallback : primary;
 		}
 
 		template<typename Primary = P, typename Fallback = F>
-- 
2.43.0


From d35fb0bbac0fa4a38f4c4c26f934095c9f4cb6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:12 +0000
Subject: [PATCH 10/39] fix: aligned_malloc passed its arguments to
 posix_memalign in the wrong order

---
 include/ktl/utility/aligned_malloc.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ktl/utility/aligned_malloc.h b/include/ktl/utility/aligned_malloc.h
index 694f1df..f502eec 100644
--- a/include/ktl/utility/aligned_malloc.h
+++ b/include/ktl/utility/aligned_malloc.h
@@ -52,8 +52,8 @@ namespace ktl::detail
 #elif KTL_HAS_MM_MALLOC
         return _mm_malloc(size, alignment);
 #elif KTL_HAS_POSIX_MEMALIGN
-        void* res;
-        const int failed = posix_memalign(&res, size, alignment);
+        void* res = nullptr;
+        const int failed = posix_memalign(&res, alignment, size);
         if (failed) res = nullptr;
         return res;
 #elif defined(_MSC_VER)
-- 
2.43.0


From 4026e6340c21ee317683743e7fcde6e6a02e17e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:12 +0000
Subject: [PATCH 11/39] fix: aligned_malloc without an aligned heap served
 requests which wrap around

---
 include/ktl/utility/aligned_malloc.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/ktl/utility/aligned_malloc.h b/include/ktl/utility/aligned_malloc.h
index f502eec..d922c09 100644
--- a/include/ktl/utility/aligned_malloc.h
+++ b/include/ktl/utility/aligned_malloc.h
@@ -1,6 +1,8 @@
 #pragma once
 
 #include <cstddef>
+#include <cstdint>
+#include <cstdlib>
 #include <memory>
 
 // KTL_MALLOC_ALREADY_ALIGNED
@@ -60,6 +62,7 @@ namespace ktl::detail
         return _aligned_malloc(size, alignment);
 #else
         void* res = nullptr;
+        if (size > SIZE_MAX - alignment) return nullptr;
         void* ptr = malloc(size + alignment);
         if (ptr != nullptr)
         {
-- 
2.43.0


From 998111a2255fb6ecb0c88aaec5a6e4435e56b8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:12 +0000
Subject: [PATCH 12/39] fix: cascading constructed its allocators in null when
 out of memory

---
 include/ktl/allocators/cascading.h   | 11 ++++++++++-
 include/ktl/utility/aligned_malloc.h |  3 ++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/ktl/allocators/cascading.h b/include/ktl/allocators/cascading.h
index d32a927..dfc086e 100644
--- a/include/ktl/allocators/cascading.h
+++ b/include/ktl/allocators/cascading.h
@@ -97,8 +97,13 @@ namespace ktl
 		{
 			// Add an initial allocator
 			if (!m_Node)
+			{
 				m_Node = detail::aligned_new<node>(detail::ALIGNMENT);
 
+				if (!m_Node)
+					return nullptr;
+			}
+
 			if constexpr (detail::has_max_size_v<Alloc>)
 			{
 				if (n > m_Node->Allocator.max_size())
@@ -111,8 +116,12 @@ namespace ktl
 			if (p == nullptr)
 			{
 				node* next = m_Node;
+				node* current = detail::aligned_new<node>(detail::ALIGNMENT);
 
-				m_Node = detail::aligned_new<node>(detail::ALIGNMENT);
+				if (!current)
+					return nullptr;
+
+				m_Node = current;
 				m_Node->Next = next;
 
 				p = m_Node->Allocator.allocate(n);
diff --git a/include/ktl/utility/aligned_malloc.h b/include/ktl/utility/aligned_malloc.h
index d922c09..dc27896 100644
--- a/include/ktl/utility/aligned_malloc.h
+++ b/include/ktl/utility/aligned_malloc.h
@@ -94,7 +94,8 @@ namespace ktl::detail
         noexcept(noexcept(T(std::declval<Args>()...)))
     {
         T* p = static_cast<T*>(aligned_malloc(sizeof(T), alignment));
-        ::new(p) T(std::forward<Args>(args)...);
+        if (p)
+            ::new(p) T(std::forward<Args>(args)...);
         return p;
     }
 
-- 
2.43.0


From 2e0b6f14ca079b30883caa85fbf5ffc5d9cb5a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:12 +0000
Subject: [PATCH 13/39] fix: cascading kept a new allocator around for every
 allocation it could not serve

---
 include/ktl/allocators/cascading.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/ktl/allocators/cascading.h b/include/ktl/allocators/cascading.h
index dfc086e..2d5771d 100644
--- a/include/ktl/allocators/cascading.h
+++ b/include/ktl/allocators/cascading.h
@@ -121,14 +121,20 @@ namespace ktl
 				if (!current)
 					return nullptr;
 
+				p = current->Allocator.allocate(n);
+
+				// If not even a new allocator is able to allocate it, don't keep it around
+				if (p == nullptr)
+				{
+					detail::aligned_delete(current);
+					return nullptr;
+				}
+
 				m_Node = current;
 				m_Node->Next = next;
-
-				p = m_Node->Allocator.allocate(n);
 			}
 
-			if (p)
-				m_Node->Allocations++;
+			m_Node->Allocations++;
 
 			return p;
 		}
-- 
2.43.0


From ff7adf92530557900d52666a6c921a28cf0fa447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:12 +0000
Subject: [PATCH 14/39] fix: max_size of cascading dereferenced null before the
 first allocation

---
 include/ktl/allocators/cascading.h | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/include/ktl/allocators/cascading.h b/include/ktl/allocators/cascading.h
index 2d5771d..f76b50f 100644
--- a/include/ktl/allocators/cascading.h
+++ b/include/ktl/allocators/cascading.h
@@ -248,10 +248,24 @@ namespace ktl
 		*/
 		template<typename A = Alloc>
 		typename std::enable_if<detail::has_max_size_v<A>, size_type>::type
-		max_size() const
-			noexcept(detail::has_nothrow_max_size_v<A>)
+		max_size() const noexcept(
+			std::is_nothrow_default_constructible_v<A> &&
+			detail::has_nothrow_max_size_v<A>)
 		{
-			return m_Node->Allocator.max_size();
+			if (m_Node)
+				return m_Node->Allocator.max_size();
+
+			// Nothing has been allocated yet, so ask an allocator like the one that would be created
+			node* current = detail::aligned_new<node>(detail::ALIGNMENT);
+
+			if (!current)
+				return 0;
+
+			size_type size = current->Allocator.max_size();
+
+			detail::aligned_delete(current);
+
+			return size;
 		}
 
 		/**
-- 
2.43.0


From 5acdd5d2ea0ef8a1b3a8cafa607a5244592b88e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:12 +0000
Subject: [PATCH 15/39] fix: global allocators compared both equal and unequal

---
 include/ktl/allocators/global.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ktl/allocators/global.h b/include/ktl/allocators/global.h
index 214c209..da374f5 100644
--- a/include/ktl/allocators/global.h
+++ b/include/ktl/allocators/global.h
@@ -46,7 +46,7 @@ namespace ktl
 
 		bool operator!=(const global& rhs) const
 		{
-			return true;
+			return false;
 		}
 
 #pragma region Allocation
-- 
2.43.0


From c95e21675994a2dcedf4d2ab0f1ecdafd39379b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:12 +0000
Subject: [PATCH 16/39] fix: assigning a shared allocator to itself destroyed
 it

---
 include/ktl/allocators/shared.h | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/ktl/allocators/shared.h b/include/ktl/allocators/shared.h
index 6f28ae1..7db07e9 100644
--- a/include/ktl/allocators/shared.h
+++ b/include/ktl/allocators/shared.h
@@ -95,11 +95,14 @@ namespace ktl
 		shared& operator=(const shared& rhs)
 			noexcept(noexcept(decrement()))
 		{
-			decrement();
+			if (this != &rhs)
+			{
+				decrement();
 
-			m_Block = rhs.m_Block;
+				m_Block = rhs.m_Block;
 
-			increment();
+				increment();
+			}
 
 			return *this;
 		}
@@ -107,11 +110,14 @@ namespace ktl
 		shared& operator=(shared&& rhs)
 			noexcept(noexcept(decrement()))
 		{
-			decrement();
+			if (this != &rhs)
+			{
+				decrement();
 
-			m_Block = rhs.m_Block;
+				m_Block = rhs.m_Block;
 
-			rhs.m_Block = nullptr;
+				rhs.m_Block = nullptr;
+			}
 
 			return *this;
 		}
-- 
2.43.0


From 4e64e150e4378cec86571fb493d767576a80c9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:13 +0000
Subject: [PATCH 17/39] fix: comparing moved-from shared allocators
 dereferenced null

---
 include/ktl/allocators/shared.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ktl/allocators/shared.h b/include/ktl/allocators/shared.h
index 7db07e9..6ad8699 100644
--- a/include/ktl/allocators/shared.h
+++ b/include/ktl/allocators/shared.h
@@ -125,13 +125,13 @@ namespace ktl
 		bool operator==(const shared& rhs) const
 			noexcept(detail::has_nothrow_equal_v<Alloc>)
 		{
-			return m_Block == rhs.m_Block && m_Block->Allocator == rhs.m_Block->Allocator;
+			return m_Block == rhs.m_Block && (!m_Block || m_Block->Allocator == rhs.m_Block->Allocator);
 		}
 
 		bool operator!=(const shared& rhs) const
 			noexcept(detail::has_nothrow_not_equal_v<Alloc>)
 		{
-			return m_Block != rhs.m_Block || m_Block->Allocator != rhs.m_Block->Allocator;
+			return m_Block != rhs.m_Block || (m_Block && m_Block->Allocator != rhs.m_Block->Allocator);
 		}
 
 #pragma region Allocation
-- 
2.43.0


From a595e15d5311367536fa6258f752c23177ea6371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:13 +0000
Subject: [PATCH 18/39] fix: threaded did not lock when its state was read by
 owns, max_size or a comparison

---
 include/ktl/allocators/threaded.h | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/include/ktl/allocators/threaded.h b/include/ktl/allocators/threaded.h
index bc7aa10..f6850e0 100644
--- a/include/ktl/allocators/threaded.h
+++ b/include/ktl/allocators/threaded.h
@@ -45,15 +45,25 @@ namespace ktl
 		threaded& operator=(const threaded&) = delete;
 		threaded& operator=(threaded&&) = delete;
 
-		bool operator==(const threaded& rhs) const
-			noexcept(detail::has_nothrow_equal_v<Alloc>)
+		bool operator==(const threaded& rhs) const // Lock cannot be noexcept
 		{
+			// The same lock can't be taken twice
+			if (this == &rhs)
+				return true;
+
+			std::scoped_lock<std::mutex, std::mutex> lock(m_Lock, rhs.m_Lock);
+
 			return m_Alloc == rhs.m_Alloc;
 		}
 
-		bool operator!=(const threaded& rhs) const
-			noexcept(detail::has_nothrow_not_equal_v<Alloc>)
+		bool operator!=(const threaded& rhs) const // Lock cannot be noexcept
 		{
+			// The same lock can't be taken twice
+			if (this == &rhs)
+				return false;
+
+			std::scoped_lock<std::mutex, std::mutex> lock(m_Lock, rhs.m_Lock);
+
 			return m_Alloc != rhs.m_Alloc;
 		}
 
@@ -98,17 +108,19 @@ namespace ktl
 #pragma region Utility
 		template<typename A = Alloc>
 		typename std::enable_if<detail::has_max_size_v<A>, size_type>::type
-		max_size() const
-			noexcept(detail::has_nothrow_max_size_v<A>)
+		max_size() const // Lock cannot be noexcept
 		{
+			std::lock_guard<std::mutex> lock(m_Lock);
+
 			return m_Alloc.max_size();
 		}
 
 		template<typename A = Alloc>
 		typename std::enable_if<detail::has_owns_v<A>, bool>::type
-		owns(void* p) const
-			noexcept(detail::has_nothrow_owns_v<A>)
+		owns(void* p) const // Lock cannot be noexcept
 		{
+			std::lock_guard<std::mutex> lock(m_Lock);
+
 			return m_Alloc.owns(p);
 		}
 #pragma endregion
@@ -125,6 +137,6 @@ namespace ktl
 
 	private:
 		KTL_EMPTY_BASE Alloc m_Alloc;
-		std::mutex m_Lock;
+		mutable std::mutex m_Lock;
 	};
 }
\ No newline at end of file
-- 
2.43.0


From 2d3eb2e3f5d46f00d022725fd49b3bc6353c0d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:23 +0000
Subject: [PATCH 19/39] fix: moving a container to another allocator returned
 the wrong amount of memory

---
 include/ktl/containers/binary_heap.h    | 9 +++++++--
 include/ktl/containers/trivial_array.h  | 2 +-
 include/ktl/containers/trivial_vector.h | 2 +-
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/ktl/containers/binary_heap.h b/include/ktl/containers/binary_heap.h
index b243ddd..103812b 100644
--- a/include/ktl/containers/binary_heap.h
+++ b/include/ktl/containers/binary_heap.h
@@ -160,10 +160,15 @@ namespace ktl
         {
             // Moving using a different allocator means we can't just move, we have to reallocate
             for (size_t i = 0; i < m_Size; i++)
-                Traits::construct(m_Alloc, m_Begin + i, other.m_Begin[i]);
+                Traits::construct(m_Alloc, m_Begin + i, std::move(other.m_Begin[i]));
 
             if (other.m_Begin != nullptr)
-                Traits::deallocate(other.m_Alloc, other.m_Begin, other.m_Capacity * sizeof(T));
+            {
+                for (size_t i = 0; i < m_Size; i++)
+                    Traits::destroy(other.m_Alloc, other.m_Begin + i);
+
+                Traits::deallocate(other.m_Alloc, other.m_Begin, other.m_Capacity);
+            }
 
             other.m_Capacity = 0;
             other.m_Size = 0;
diff --git a/include/ktl/containers/trivial_array.h b/include/ktl/containers/trivial_array.h
index 45140d3..4b43488 100644
--- a/include/ktl/containers/trivial_array.h
+++ b/include/ktl/containers/trivial_array.h
@@ -144,7 +144,7 @@ namespace ktl
             {
                 std::memcpy(m_Begin, other.m_Begin, other.size() * sizeof(T));
                 
-                Traits::deallocate(other.m_Alloc, other.m_Begin, other.size() * sizeof(T));
+                Traits::deallocate(other.m_Alloc, other.m_Begin, other.size());
             }
             
 			other.m_Begin = nullptr;
diff --git a/include/ktl/containers/trivial_vector.h b/include/ktl/containers/trivial_vector.h
index 68d2986..29177e3 100644
--- a/include/ktl/containers/trivial_vector.h
+++ b/include/ktl/containers/trivial_vector.h
@@ -155,7 +155,7 @@ namespace ktl
             {
                 std::memcpy(m_Begin, other.m_Begin, other.size() * sizeof(T));
                 
-                Traits::deallocate(other.m_Alloc, other.m_Begin, other.capacity() * sizeof(T));
+                Traits::deallocate(other.m_Alloc, other.m_Begin, other.capacity());
             }
             
 			other.m_Begin = nullptr;
-- 
2.43.0


From c777dcb78252bb0f6045fc477985e10ddd4bec6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:23 +0000
Subject: [PATCH 20/39] fix: assigning a container to itself lost its elements

---
 include/ktl/containers/binary_heap.h    | 6 ++++++
 include/ktl/containers/trivial_array.h  | 6 ++++++
 include/ktl/containers/trivial_vector.h | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/include/ktl/containers/binary_heap.h b/include/ktl/containers/binary_heap.h
index 103812b..707f35d 100644
--- a/include/ktl/containers/binary_heap.h
+++ b/include/ktl/containers/binary_heap.h
@@ -189,6 +189,9 @@ namespace ktl
 
         binary_heap& operator=(const binary_heap& other) noexcept(std::is_nothrow_copy_assignable_v<T>)
         {
+            if (this == &other)
+                return *this;
+
             if (m_Begin)
             {
                 for (size_t i = 0; i < m_Size; i++)
@@ -212,6 +215,9 @@ namespace ktl
 
         binary_heap& operator=(binary_heap&& other) noexcept(std::is_nothrow_move_assignable_v<T>)
         {
+            if (this == &other)
+                return *this;
+
             // Deconstruct elements
             if (m_Begin)
             {
diff --git a/include/ktl/containers/trivial_array.h b/include/ktl/containers/trivial_array.h
index 4b43488..e369074 100644
--- a/include/ktl/containers/trivial_array.h
+++ b/include/ktl/containers/trivial_array.h
@@ -159,6 +159,9 @@ namespace ktl
 
 		trivial_array& operator=(const trivial_array& other) noexcept
 		{
+			if (this == &other)
+				return *this;
+
 			if (m_Begin != nullptr)
 				Traits::deallocate(m_Alloc, m_Begin, size());
 
@@ -177,6 +180,9 @@ namespace ktl
 
 		trivial_array& operator=(trivial_array&& other) noexcept
 		{
+			if (this == &other)
+				return *this;
+
 			if (m_Begin != nullptr)
 				Traits::deallocate(m_Alloc, m_Begin, size());
 
diff --git a/include/ktl/containers/trivial_vector.h b/include/ktl/containers/trivial_vector.h
index 29177e3..297ccd7 100644
--- a/include/ktl/containers/trivial_vector.h
+++ b/include/ktl/containers/trivial_vector.h
@@ -171,6 +171,9 @@ namespace ktl
 
 		trivial_vector& operator=(const trivial_vector& other) noexcept
 		{
+			if (this == &other)
+				return *this;
+
 			if (m_Begin != nullptr)
 				Traits::deallocate(m_Alloc, m_Begin, capacity());
 
@@ -190,6 +193,9 @@ namespace ktl
 
 		trivial_vector& operator=(trivial_vector&& other) noexcept
 		{
+			if (this == &other)
+				return *this;
+
 			if (m_Begin != nullptr)
 				Traits::deallocate(m_Alloc, m_Begin, capacity());
 
-- 
2.43.0


From 79252627b27d0e4b2689f2cc73fc22850585bcf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:23 +0000
Subject: [PATCH 21/39] fix: popping the last element of a binary_heap assigned
 to it after it was destroyed

---
 include/ktl/containers/binary_heap.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/ktl/containers/binary_heap.h b/include/ktl/containers/binary_heap.h
index 707f35d..7cc9664 100644
--- a/include/ktl/containers/binary_heap.h
+++ b/include/ktl/containers/binary_heap.h
@@ -339,9 +339,15 @@ namespace ktl
 
             T root = m_Begin[0];
 
-            m_Begin[0] = std::move(m_Begin[--m_Size]);
+            m_Size--;
+
+            if (m_Size > 0)
+                m_Begin[0] = std::move(m_Begin[m_Size]);
+
             Traits::destroy(m_Alloc, m_Begin + m_Size);
-            percolateDown(0);
+
+            if (m_Size > 0)
+                percolateDown(0);
 
             return root;
         }
-- 
2.43.0


From 388889fd1adc80c68abda0a7114423ba3fb5c8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:23 +0000
Subject: [PATCH 22/39] fix: adding an element of a container to itself read
 freed memory when it had to grow

---
 include/ktl/containers/binary_heap.h    |  9 ++++++++-
 include/ktl/containers/trivial_vector.h | 15 ++++++++++++---
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/include/ktl/containers/binary_heap.h b/include/ktl/containers/binary_heap.h
index 7cc9664..db9349d 100644
--- a/include/ktl/containers/binary_heap.h
+++ b/include/ktl/containers/binary_heap.h
@@ -309,9 +309,16 @@ namespace ktl
         iterator insert(V&& value) noexcept
         {
             if (m_Size == m_Capacity)
+            {
+                // The value may be part of this heap, so it has to be kept when it moves
+                T element(std::forward<V>(value));
+
                 expand(1);
 
-            Traits::construct(m_Alloc, m_Begin + m_Size, std::forward<V>(value));
+                Traits::construct(m_Alloc, m_Begin + m_Size, std::move(element));
+            }
+            else
+                Traits::construct(m_Alloc, m_Begin + m_Size, std::forward<V>(value));
 
             size_t index = percolateUp(m_Size++);
 
diff --git a/include/ktl/containers/trivial_vector.h b/include/ktl/containers/trivial_vector.h
index 297ccd7..eed8946 100644
--- a/include/ktl/containers/trivial_vector.h
+++ b/include/ktl/containers/trivial_vector.h
@@ -313,9 +313,12 @@ namespace ktl
 		*/
 		iterator push_back(const T& element) noexcept
 		{
+			// The element may be part of this vector, so it has to be kept when it moves
+			const T value(element);
+
 			if (m_End == m_EndMax)
 				expand(1);
-			*m_End = element;
+			*m_End = value;
 
 			return m_End++;
 		}
@@ -327,9 +330,12 @@ namespace ktl
 		*/
 		iterator push_back(T&& element) noexcept
 		{
+			// The element may be part of this vector, so it has to be kept when it moves
+			T value(std::move(element));
+
 			if (m_End == m_EndMax)
 				expand(1);
-			*m_End = std::move(element);
+			*m_End = std::move(value);
 
 			return m_End++;
 		}
@@ -364,9 +370,12 @@ namespace ktl
 		template<typename... Args>
 		iterator emplace_back(Args&&... args) noexcept
 		{
+			// The arguments may be part of this vector, so they have to be used before it moves
+			T value(std::forward<Args>(args)...);
+
 			if (m_End == m_EndMax)
 				expand(1);
-			*m_End = T(std::forward<Args>(args)...);
+			*m_End = std::move(value);
 
 			return m_End++;
 		}
-- 
2.43.0


From 7e59cd6624be9ca633aab88c02774c768772b3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:23 +0000
Subject: [PATCH 23/39] fix: emplace of trivial_vector did not compile, and
 lost its position when it had to grow

---
 include/ktl/containers/trivial_vector.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/ktl/containers/trivial_vector.h b/include/ktl/containers/trivial_vector.h
index eed8946..966d2c9 100644
--- a/include/ktl/containers/trivial_vector.h
+++ b/include/ktl/containers/trivial_vector.h
@@ -392,12 +392,19 @@ namespace ktl
 		{
             KTL_ASSERT(iter >= m_Begin && iter <= m_End);
             
+			// The arguments may be part of this vector, so they have to be used before it moves
+			T value(std::forward<Args>(args)...);
+
+			const size_t index = iter - m_Begin;
+
 			if (m_End == m_EndMax)
 				expand(1);
-            
-            std::memmove(const_cast<iterator>(iter + 1), iter, (m_End - iter) * sizeof(T));
-            
-			*iter = T(std::forward<Args>(args)...);
+
+			iterator dst = m_Begin + index;
+
+			std::memmove(dst + 1, dst, (m_End - dst) * sizeof(T));
+
+			*dst = std::move(value);
 			m_End++;
 		}
         
-- 
2.43.0


From 0feb68dff63008489cc533e9b4b78e3618b7bd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:44 +0000
Subject: [PATCH 24/39] fix: trivial_buffer was misaligned, and its iterators
 did not compile, for anything but bytes

---
 include/ktl/containers/trivial_buffer.h | 26 ++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/include/ktl/containers/trivial_buffer.h b/include/ktl/containers/trivial_buffer.h
index 33ea2b9..8149a65 100644
--- a/include/ktl/containers/trivial_buffer.h
+++ b/include/ktl/containers/trivial_buffer.h
@@ -89,24 +89,24 @@ namespace ktl
 		 * @param index The index of the element in the buffer.
 		 * @return A reference to the element at @p index.
 		*/
-		const T& operator[](size_t index) const noexcept { return reinterpret_cast<T*>(m_Data)[index % Size]; }
+		const T& operator[](size_t index) const noexcept { return reinterpret_cast<const T*>(m_Data)[index % Size]; }
 
 
-		iterator begin() noexcept { return m_Data; }
+		iterator begin() noexcept { return data(); }
 
-		const_iterator begin() const noexcept { return m_Data; }
+		const_iterator begin() const noexcept { return data(); }
 
-		iterator end() noexcept { return m_Data + Size; }
+		iterator end() noexcept { return data() + Size; }
 
-		const_iterator end() const noexcept { return m_Data + Size; }
+		const_iterator end() const noexcept { return data() + Size; }
 
-		std::reverse_iterator<T*> rbegin() noexcept { return std::reverse_iterator(m_Data + Size); }
+		std::reverse_iterator<T*> rbegin() noexcept { return std::reverse_iterator(data() + Size); }
 
-		std::reverse_iterator<const T*> rbegin() const noexcept { return std::reverse_iterator(m_Data + Size); }
+		std::reverse_iterator<const T*> rbegin() const noexcept { return std::reverse_iterator(data() + Size); }
 
-		std::reverse_iterator<T*> rend() noexcept { return std::reverse_iterator(m_Data); }
+		std::reverse_iterator<T*> rend() noexcept { return std::reverse_iterator(data()); }
 
-		std::reverse_iterator<const T*> rend() const noexcept { return std::reverse_iterator(m_Data); }
+		std::reverse_iterator<const T*> rend() const noexcept { return std::reverse_iterator(data()); }
 
 
 		/**
@@ -119,13 +119,13 @@ namespace ktl
 		 * @brief Returns an iterator to the start of the buffer.
 		 * @return An iterator to the start of the buffer.
 		*/
-		iterator data() noexcept { return m_Data; }
+		iterator data() noexcept { return reinterpret_cast<T*>(m_Data); }
 
 		/**
 		 * @brief Returns a const iterator to the start of the buffer.
 		 * @return A const iterator to the start of the buffer.
 		*/
-		const_iterator data() const noexcept { return m_Data; }
+		const_iterator data() const noexcept { return reinterpret_cast<const T*>(m_Data); }
 
 		/**
 		 * @brief Returns a reference to the element at @p index, rolling.
@@ -133,7 +133,7 @@ namespace ktl
 		 * @param index The index of the element in the buffer.
 		 * @return A reference to the element at @p index.
 		*/
-		T& at(size_t index) const noexcept { return reinterpret_cast<T*>(m_Data)[index % Size]; }
+		T& at(size_t index) const noexcept { return const_cast<T*>(data())[index % Size]; }
 
 
 		/**
@@ -149,6 +149,6 @@ namespace ktl
 		}
 
 	private:
-		uint8_t m_Data[Size * sizeof(T)];
+		alignas(T) uint8_t m_Data[Size * sizeof(T)];
 	};
 }
\ No newline at end of file
-- 
2.43.0


From f68361e658340ec9075eac60089c143102b34065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:44 +0000
Subject: [PATCH 25/39] fix: empty containers and ranges passed null to memcpy
 and memmove

---
 include/ktl/containers/trivial_array.h  | 20 +++++++++++++-------
 include/ktl/containers/trivial_vector.h | 22 ++++++++++++++--------
 2 files changed, 27 insertions(+), 15 deletions(-)

diff --git a/include/ktl/containers/trivial_array.h b/include/ktl/containers/trivial_array.h
index e369074..4e85c51 100644
--- a/include/ktl/containers/trivial_array.h
+++ b/include/ktl/containers/trivial_array.h
@@ -104,7 +104,8 @@ namespace ktl
 			m_End(m_Begin + size_t(last - first))
 		{
 			size_t n = last - first;
-			std::memcpy(m_Begin, first, n * sizeof(T));
+			if (n > 0)
+				std::memcpy(m_Begin, first, n * sizeof(T));
 		}
 
 		trivial_array(const trivial_array& other) noexcept :
@@ -112,7 +113,7 @@ namespace ktl
 			m_Begin(Traits::allocate(m_Alloc, other.size())),
 			m_End(m_Begin + other.size())
 		{
-            if (other.m_Begin != nullptr)
+            if (other.size() > 0)
 			    std::memcpy(m_Begin, other.m_Begin, other.size() * sizeof(T));
 		}
 
@@ -130,7 +131,7 @@ namespace ktl
 			m_Begin(Traits::allocate(m_Alloc, other.size())),
 			m_End(m_Begin + other.size())
 		{
-            if (other.m_Begin != nullptr)
+            if (other.size() > 0)
 			    std::memcpy(m_Begin, other.m_Begin, other.size() * sizeof(T));
 		}
         
@@ -142,7 +143,8 @@ namespace ktl
             // Moving using a different allocator means we can't just move, we have to reallocate
             if (other.m_Begin != nullptr)
             {
-                std::memcpy(m_Begin, other.m_Begin, other.size() * sizeof(T));
+                if (other.size() > 0)
+                    std::memcpy(m_Begin, other.m_Begin, other.size() * sizeof(T));
                 
                 Traits::deallocate(other.m_Alloc, other.m_Begin, other.size());
             }
@@ -174,7 +176,8 @@ namespace ktl
 			m_Begin = alBlock;
 			m_End = m_Begin + n;
 
-			std::memcpy(m_Begin, other.m_Begin, n * sizeof(T));
+			if (n > 0)
+				std::memcpy(m_Begin, other.m_Begin, n * sizeof(T));
 			return *this;
 		}
 
@@ -276,7 +279,9 @@ namespace ktl
 
 				if (m_Begin != nullptr)
 				{
-					std::memcpy(alBlock, m_Begin, std::min(curSize, n) * sizeof(T));
+					if (curSize > 0 && n > 0)
+						std::memcpy(alBlock, m_Begin, std::min(curSize, n) * sizeof(T));
+
 					Traits::deallocate(m_Alloc, m_Begin, curSize);
 				}
 
@@ -305,7 +310,8 @@ namespace ktl
 				m_End = m_Begin + n;
 			}
 
-			std::memcpy(m_Begin, first, n * sizeof(T));
+			if (n > 0)
+				std::memcpy(m_Begin, first, n * sizeof(T));
 		}
 
 	private:
diff --git a/include/ktl/containers/trivial_vector.h b/include/ktl/containers/trivial_vector.h
index 966d2c9..4f79ab0 100644
--- a/include/ktl/containers/trivial_vector.h
+++ b/include/ktl/containers/trivial_vector.h
@@ -110,7 +110,8 @@ namespace ktl
 			m_EndMax(m_End)
 		{
 			size_t n = last - first;
-			std::memcpy(m_Begin, first, n * sizeof(T));
+			if (n > 0)
+				std::memcpy(m_Begin, first, n * sizeof(T));
 		}
 
 		trivial_vector(const trivial_vector& other) noexcept :
@@ -119,7 +120,7 @@ namespace ktl
 			m_End(m_Begin + other.size()),
 			m_EndMax(m_End)
 		{
-            if (other.m_Begin != nullptr)
+            if (other.size() > 0)
 			    std::memcpy(m_Begin, other.m_Begin, other.size() * sizeof(T));
 		}
 
@@ -140,7 +141,7 @@ namespace ktl
 			m_End(m_Begin + other.size()),
 			m_EndMax(m_End)
 		{
-			if (other.m_Begin != nullptr)
+			if (other.size() > 0)
 				std::memcpy(m_Begin, other.m_Begin, other.size() * sizeof(T));
 		}
 
@@ -153,7 +154,8 @@ namespace ktl
             // Moving using a different allocator means we can't just move, we have to reallocate
             if (other.m_Begin != nullptr)
             {
-                std::memcpy(m_Begin, other.m_Begin, other.size() * sizeof(T));
+                if (other.size() > 0)
+                    std::memcpy(m_Begin, other.m_Begin, other.size() * sizeof(T));
                 
                 Traits::deallocate(other.m_Alloc, other.m_Begin, other.capacity());
             }
@@ -187,7 +189,8 @@ namespace ktl
 			m_End = m_Begin + n;
 			m_EndMax = m_Begin + n;
 
-			std::memcpy(m_Begin, other.m_Begin, n * sizeof(T));
+			if (n > 0)
+				std::memcpy(m_Begin, other.m_Begin, n * sizeof(T));
 			return *this;
 		}
 
@@ -356,7 +359,8 @@ namespace ktl
 			T* lastElement = m_End;
 			m_End += n;
 
-			std::memcpy(lastElement, first, n * sizeof(T));
+			if (n > 0)
+				std::memcpy(lastElement, first, n * sizeof(T));
 
 			return lastElement;
 		}
@@ -435,7 +439,8 @@ namespace ktl
             KTL_ASSERT(first <= last);
             KTL_ASSERT(first >= m_Begin && last <= m_End);
             
-            std::memmove(const_cast<iterator>(first), last, (m_End - last) * sizeof(T));
+            if (first != last)
+                std::memmove(const_cast<iterator>(first), last, (m_End - last) * sizeof(T));
             
             m_End -= (last - first);
             
@@ -470,7 +475,8 @@ namespace ktl
 
 			if (m_Begin != nullptr)
 			{
-				std::memcpy(alBlock, m_Begin, curSize * sizeof(T));
+				if (curSize > 0)
+					std::memcpy(alBlock, m_Begin, curSize * sizeof(T));
 
 				Traits::deallocate(m_Alloc, m_Begin, capacity());
 			}
-- 
2.43.0


From 48dc912355ca8b4f38d9f383fa31d4e9b3905924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:13 +0000
Subject: [PATCH 26/39] fix: shared dereferenced null if it was created when
 out of memory

---
 include/ktl/allocators/shared.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/ktl/allocators/shared.h b/include/ktl/allocators/shared.h
index 6ad8699..f0b4a84 100644
--- a/include/ktl/allocators/shared.h
+++ b/include/ktl/allocators/shared.h
@@ -138,6 +138,10 @@ namespace ktl
 		void* allocate(size_t n)
 			noexcept(detail::has_nothrow_allocate_v<Alloc>)
 		{
+			// Without an allocator there is nothing to allocate from
+			if (!m_Block)
+				return nullptr;
+
 			return m_Block->Allocator.allocate(n);
 		}
 
@@ -172,7 +176,7 @@ namespace ktl
 		max_size() const
 			noexcept(detail::has_nothrow_max_size_v<A>)
 		{
-			return m_Block->Allocator.max_size();
+			return m_Block ? m_Block->Allocator.max_size() : 0;
 		}
 
 		template<typename A = Alloc>
@@ -180,7 +184,7 @@ namespace ktl
 		owns(void* p) const
 			noexcept(detail::has_nothrow_owns_v<A>)
 		{
-			return m_Block->Allocator.owns(p);
+			return m_Block && m_Block->Allocator.owns(p);
 		}
 #pragma endregion
 
-- 
2.43.0


From 09024efd404c86450a7120937e996878b66d3c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:04 +0000
Subject: [PATCH 27/39] fix: pop_back of trivial_vector did not compile

---
 include/ktl/containers/trivial_vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ktl/containers/trivial_vector.h b/include/ktl/containers/trivial_vector.h
index 4f79ab0..19241f6 100644
--- a/include/ktl/containers/trivial_vector.h
+++ b/include/ktl/containers/trivial_vector.h
@@ -451,7 +451,7 @@ namespace ktl
 		 * @brief Removes the last element from the vector and returns it.
 		 * @return The last element in the vector.
 		*/
-		T pop_back() noexcept { return m_Begin[--m_End]; }
+		T pop_back() noexcept { KTL_ASSERT(size() > 0); return *--m_End; }
 
 		/**
 		 * @brief Clears all elements in the vector.
-- 
2.43.0


From 63673aafa14d3264bde295897f7d10bc10612203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:31 +0000
Subject: [PATCH 28/39] fix: shared counted its handles in the size type of its
 allocator, which may be too narrow

---
 include/ktl/allocators/shared.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ktl/allocators/shared.h b/include/ktl/allocators/shared.h
index f0b4a84..0b6fca8 100644
--- a/include/ktl/allocators/shared.h
+++ b/include/ktl/allocators/shared.h
@@ -46,7 +46,7 @@ namespace ktl
 		struct block
 		{
 			KTL_EMPTY_BASE Alloc Allocator;
-			Atomic<detail::get_size_type_t<Alloc>> UseCount;
+			Atomic<size_t> UseCount;
 
 			template<typename... Args,
 				typename = std::enable_if_t<
-- 
2.43.0


From adc523e27f4ac4bfefbd5a8dc7d6c82fbeebe7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:06 +0000
Subject: [PATCH 29/39] fix: binary_heap copied elements which only have to be
 movable

---
 include/ktl/containers/binary_heap.h | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/include/ktl/containers/binary_heap.h b/include/ktl/containers/binary_heap.h
index db9349d..322ef7e 100644
--- a/include/ktl/containers/binary_heap.h
+++ b/include/ktl/containers/binary_heap.h
@@ -344,7 +344,7 @@ namespace ktl
         {
             KTL_ASSERT(m_Size > 0);
 
-            T root = m_Begin[0];
+            T root = std::move(m_Begin[0]);
 
             m_Size--;
 
@@ -437,7 +437,7 @@ namespace ktl
 
         size_t percolateUp(size_t index)
         {
-            const T value = m_Begin[index];
+            T value = std::move(m_Begin[index]);
 
             while (index != 0 && m_Comp(value, m_Begin[parent(index)]))
             {
@@ -454,8 +454,6 @@ namespace ktl
         {
             size_t parent = index;
 
-            const T value = m_Begin[index];
-
             while (parent < m_Size)
             {
                 size_t l = left(parent);
@@ -472,14 +470,12 @@ namespace ktl
                 if (child == parent)
                     break;
 
-                const T temp(std::move(m_Begin[child]));
+                T temp(std::move(m_Begin[child]));
                 m_Begin[child] = std::move(m_Begin[parent]);
                 m_Begin[parent] = std::move(temp);
 
                 parent = child;
             }
-
-            m_Begin[parent] = std::move(value);
         }
 
     private:
-- 
2.43.0


From 70aa819ec666ce56cdf8915112bdda837576cd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:35 +0000
Subject: [PATCH 30/39] fix: the headers of several allocators could not be
 included on their own

---
 include/ktl/utility/meta.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/ktl/utility/meta.h b/include/ktl/utility/meta.h
index 3374fe8..1c7ffe6 100644
--- a/include/ktl/utility/meta.h
+++ b/include/ktl/utility/meta.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <cstddef>
 #include <type_traits>
 
 namespace ktl::detail
-- 
2.43.0


From 16c5a72e075d8380b2ed3e4255866971150e8868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:10 +0000
Subject: [PATCH 31/39] fix: cascading kept an empty allocator which was no
 longer the main one

---
 include/ktl/allocators/cascading.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/ktl/allocators/cascading.h b/include/ktl/allocators/cascading.h
index f76b50f..00fb85e 100644
--- a/include/ktl/allocators/cascading.h
+++ b/include/ktl/allocators/cascading.h
@@ -132,6 +132,14 @@ namespace ktl
 
 				m_Node = current;
 				m_Node->Next = next;
+
+				// The previous allocator is no longer the main one, so don't keep it if it holds no allocations
+				if (next->Allocations == 0)
+				{
+					m_Node->Next = next->Next;
+
+					detail::aligned_delete(next);
+				}
 			}
 
 			m_Node->Allocations++;
-- 
2.43.0


From 3382ad54c9b0175d746e074e1b932062d53c2062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:38 +0000
Subject: [PATCH 32/39] fix: aligned_new frees its memory if the constructor
 throws

---
 include/ktl/utility/aligned_malloc.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/ktl/utility/aligned_malloc.h b/include/ktl/utility/aligned_malloc.h
index dc27896..efcf845 100644
--- a/include/ktl/utility/aligned_malloc.h
+++ b/include/ktl/utility/aligned_malloc.h
@@ -93,9 +93,12 @@ namespace ktl::detail
     T* aligned_new(size_t alignment, Args&&... args)
         noexcept(noexcept(T(std::declval<Args>()...)))
     {
-        T* p = static_cast<T*>(aligned_malloc(sizeof(T), alignment));
-        if (p)
-            ::new(p) T(std::forward<Args>(args)...);
+        void* memory = aligned_malloc(sizeof(T), alignment);
+        if (!memory) return nullptr;
+        // If the constructor throws, the memory is freed again
+        std::unique_ptr<void, void(*)(void*)> guard(memory, aligned_free);
+        T* p = ::new(memory) T(std::forward<Args>(args)...);
+        guard.release();
         return p;
     }
 
-- 
2.43.0


From 4089332f8be29b6a3db1f59e1e6e9f14867013ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:49 +0000
Subject: [PATCH 33/39] fix: cascading doesn't lose the instance it opens if
 the instance throws

---
 include/ktl/allocators/cascading.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/ktl/allocators/cascading.h b/include/ktl/allocators/cascading.h
index 00fb85e..343115f 100644
--- a/include/ktl/allocators/cascading.h
+++ b/include/ktl/allocators/cascading.h
@@ -121,8 +121,13 @@ namespace ktl
 				if (!current)
 					return nullptr;
 
+				// If the new allocator throws, don't keep it around
+				std::unique_ptr<node, void(*)(node*)> guard(current, detail::aligned_delete<node>);
+
 				p = current->Allocator.allocate(n);
 
+				guard.release();
+
 				// If not even a new allocator is able to allocate it, don't keep it around
 				if (p == nullptr)
 				{
-- 
2.43.0


From 693752f6bc2566d59af2a7340bb036eafec9f6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:54 +0000
Subject: [PATCH 34/39] fix: type_allocator's constructor is noexcept only if
 its allocator's is

---
 include/ktl/allocators/type_allocator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ktl/allocators/type_allocator.h b/include/ktl/allocators/type_allocator.h
index e742152..5f2b71f 100644
--- a/include/ktl/allocators/type_allocator.h
+++ b/include/ktl/allocators/type_allocator.h
@@ -54,7 +54,7 @@ namespace ktl
 			typename = std::enable_if_t<
 			std::is_constructible_v<Alloc, Args...>>>
 		explicit type_allocator(Args&&... alloc)
-			noexcept(std::is_nothrow_constructible_v<T, Args...>) :
+			noexcept(std::is_nothrow_constructible_v<Alloc, Args...>) :
 			m_Alloc(std::forward<Args>(alloc)...) {}
 
 		type_allocator(const type_allocator&) = default;
-- 
2.43.0


From 17f7e1ecec80e54e185209820bc932640e057785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:05 +0000
Subject: [PATCH 35/39] fix: binary_heap lost its memory and elements when an
 element threw while it was constructed

---
 include/ktl/containers/binary_heap.h | 58 ++++++++++++++++++++++------
 1 file changed, 47 insertions(+), 11 deletions(-)

diff --git a/include/ktl/containers/binary_heap.h b/include/ktl/containers/binary_heap.h
index 322ef7e..b2dfdc7 100644
--- a/include/ktl/containers/binary_heap.h
+++ b/include/ktl/containers/binary_heap.h
@@ -96,8 +96,12 @@ namespace ktl
             m_Capacity(initializer.size()),
             m_Begin(Traits::allocate(m_Alloc, initializer.size()))
         {
+            std::unique_ptr<binary_heap, void(*)(binary_heap*)> guard(this, release);
+
             for (auto value : initializer)
-                insert(value);
+                insert(std::move(value));
+
+            guard.release();
         }
 
         /**
@@ -113,19 +117,27 @@ namespace ktl
             m_Capacity(initializer.size()),
             m_Begin(Traits::allocate(m_Alloc, initializer.size()))
         {
+            std::unique_ptr<binary_heap, void(*)(binary_heap*)> guard(this, release);
+
             for (auto value : initializer)
-                insert(value);
+                insert(std::move(value));
+
+            guard.release();
         }
 
         binary_heap(const binary_heap& other) noexcept(std::is_nothrow_copy_constructible_v<T>) :
             m_Alloc(Traits::select_on_container_copy_construction(other.m_Alloc)),
             m_Comp(other.m_Comp),
-            m_Size(other.m_Size),
+            m_Size(0),
             m_Capacity(other.m_Size),
             m_Begin(Traits::allocate(m_Alloc, other.m_Size))
         {
-            for (size_t i = 0; i < m_Size; i++)
-                Traits::construct(m_Alloc, m_Begin + i, other.m_Begin[i]);
+            std::unique_ptr<binary_heap, void(*)(binary_heap*)> guard(this, release);
+
+            for (; m_Size < other.m_Size; m_Size++)
+                Traits::construct(m_Alloc, m_Begin + m_Size, other.m_Begin[m_Size]);
+
+            guard.release();
         }
 
         binary_heap(binary_heap&& other) noexcept(std::is_nothrow_move_constructible_v<T>) :
@@ -143,24 +155,32 @@ namespace ktl
         binary_heap(const binary_heap& other, const Alloc& allocator) noexcept(std::is_nothrow_copy_constructible_v<T>) :
             m_Alloc(allocator),
             m_Comp(other.m_Comp),
-            m_Size(other.m_Size),
+            m_Size(0),
             m_Capacity(other.m_Size),
             m_Begin(Traits::allocate(m_Alloc, other.m_Size))
         {
-            for (size_t i = 0; i < m_Size; i++)
-                Traits::construct(m_Alloc, m_Begin + i, other.m_Begin[i]);
+            std::unique_ptr<binary_heap, void(*)(binary_heap*)> guard(this, release);
+
+            for (; m_Size < other.m_Size; m_Size++)
+                Traits::construct(m_Alloc, m_Begin + m_Size, other.m_Begin[m_Size]);
+
+            guard.release();
         }
 
         binary_heap(binary_heap&& other, const Alloc& allocator) noexcept(std::is_nothrow_move_constructible_v<T>) :
             m_Alloc(allocator),
             m_Comp(std::move(other.m_Comp)),
-            m_Size(other.m_Size),
+            m_Size(0),
             m_Capacity(other.m_Size),
             m_Begin(Traits::allocate(m_Alloc, other.m_Size))
         {
+            std::unique_ptr<binary_heap, void(*)(binary_heap*)> guard(this, release);
+
             // Moving using a different allocator means we can't just move, we have to reallocate
-            for (size_t i = 0; i < m_Size; i++)
-                Traits::construct(m_Alloc, m_Begin + i, std::move(other.m_Begin[i]));
+            for (; m_Size < other.m_Size; m_Size++)
+                Traits::construct(m_Alloc, m_Begin + m_Size, std::move(other.m_Begin[m_Size]));
+
+            guard.release();
 
             if (other.m_Begin != nullptr)
             {
@@ -387,6 +407,22 @@ namespace ktl
         }
 
     private:
+        // Destroys every element and returns the memory, leaving the heap empty
+        static void release(binary_heap* heap) noexcept
+        {
+            if (heap->m_Begin)
+            {
+                for (size_t i = 0; i < heap->m_Size; i++)
+                    Traits::destroy(heap->m_Alloc, heap->m_Begin + i);
+
+                Traits::deallocate(heap->m_Alloc, heap->m_Begin, heap->m_Capacity);
+            }
+
+            heap->m_Capacity = 0;
+            heap->m_Size = 0;
+            heap->m_Begin = nullptr;
+        }
+
         void expand(size_t n) noexcept
         {
             size_t curCap = capacity();
-- 
2.43.0


From a1930d38f3122ea4c5874002116d1941852fbabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:18 +0000
Subject: [PATCH 36/39] fix: binary_heap kept elements which were never
 constructed when an element threw while it was assigned

---
 include/ktl/containers/binary_heap.h | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/include/ktl/containers/binary_heap.h b/include/ktl/containers/binary_heap.h
index b2dfdc7..9ae0da8 100644
--- a/include/ktl/containers/binary_heap.h
+++ b/include/ktl/containers/binary_heap.h
@@ -212,23 +212,16 @@ namespace ktl
             if (this == &other)
                 return *this;
 
-            if (m_Begin)
-            {
-                for (size_t i = 0; i < m_Size; i++)
-                    Traits::destroy(m_Alloc, m_Begin + i);
-
-                Traits::deallocate(m_Alloc, m_Begin, m_Capacity);
-            }
+            release(this);
 
             m_Alloc = other.m_Alloc;
             m_Comp = other.m_Comp;
-            m_Size = other.m_Size;
+            m_Begin = Traits::allocate(m_Alloc, other.m_Size);
             m_Capacity = other.m_Size;
-            m_Begin = Traits::allocate(m_Alloc, m_Capacity);
 
             // Copy construct elements
-            for (size_t i = 0; i < m_Size; i++)
-                Traits::construct(m_Alloc, m_Begin + i, other.m_Begin[i]);
+            for (; m_Size < other.m_Size; m_Size++)
+                Traits::construct(m_Alloc, m_Begin + m_Size, other.m_Begin[m_Size]);
 
             return *this;
         }
-- 
2.43.0


From 1a44ce261ac73dcf1684189b1f56b27788ce9937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:03 +0000
Subject: [PATCH 37/39] fix: segragator offered construct and destroy which
 could not be compiled when only its second part constructs and the first does
 not know what it owns

---
 include/ktl/allocators/segragator.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/ktl/allocators/segragator.h b/include/ktl/allocators/segragator.h
index 13017fd..0c602a6 100644
--- a/include/ktl/allocators/segragator.h
+++ b/include/ktl/allocators/segragator.h
@@ -14,6 +14,7 @@ namespace ktl
 	/**
 	 * @brief An allocator which delegates allocations between 2 different allocators based on a size threshold.
 	 * @note The primary allocator must have an owns(*ptr) method if it also has a construct() method.
+	 * Without one, objects are constructed without asking the fallback allocator.
 	 * @tparam P The primary allocator, which is used when size is less than or equal to Threshold
 	 * @tparam F The fallback allocator, which is used when size is bigger than Threshold
 	*/
@@ -116,7 +117,7 @@ namespace ktl
 
 #pragma region Construction
 		template<typename T, typename... Args>
-		typename std::enable_if<detail::has_construct_v<P, T*, Args...> || detail::has_construct_v<F, T*, Args...>, void>::type
+		typename std::enable_if<detail::has_construct_v<P, T*, Args...> || (detail::has_owns_v<P> && detail::has_construct_v<F, T*, Args...>), void>::type
 		construct(T* p, Args&&... args) noexcept(
 			(!detail::has_construct_v<P, T*, Args...> || detail::has_nothrow_construct_v<P, T*, Args...>) &&
 			(!detail::has_construct_v<F, T*, Args...> || detail::has_nothrow_construct_v<F, T*, Args...>) &&
@@ -146,7 +147,7 @@ namespace ktl
 		}
 
 		template<typename T>
-		typename std::enable_if<detail::has_destroy_v<P, T*> || detail::has_destroy_v<F, T*>, void>::type
+		typename std::enable_if<detail::has_destroy_v<P, T*> || (detail::has_owns_v<P> && detail::has_destroy_v<F, T*>), void>::type
 		destroy(T* p) noexcept(
 			(!detail::has_destroy_v<P, T*> || detail::has_nothrow_destroy_v<P, T*>) &&
 			(!detail::has_destroy_v<F, T*> || detail::has_nothrow_destroy_v<F, T*>) &&
-- 
2.43.0


From 0343f92558fe869719e60a14911707dd23b201fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:03 +0000
Subject: [PATCH 38/39] fix: overflow terminated when its allocator threw while
 constructing or destroying an object which cannot throw itself

---
 include/ktl/allocators/overflow.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/ktl/allocators/overflow.h b/include/ktl/allocators/overflow.h
index 2b54b91..9db6aa7 100644
--- a/include/ktl/allocators/overflow.h
+++ b/include/ktl/allocators/overflow.h
@@ -192,7 +192,8 @@ namespace ktl
 		*/
 		template<typename T, typename... Args>
 		void construct(T* p, Args&&... args) noexcept(
-			(detail::has_construct_v<Alloc, T*, Args...> && detail::has_nothrow_construct_v<Alloc, T*, Args...>) ||
+			detail::has_construct_v<Alloc, T*, Args...> ?
+			detail::has_nothrow_construct_v<Alloc, T*, Args...> :
 			std::is_nothrow_constructible_v<T, Args...>)
 		{
 			if constexpr (detail::has_construct_v<Alloc, T*, Args...>)
@@ -211,7 +212,8 @@ namespace ktl
 		*/
 		template<typename T>
 		void destroy(T* p) noexcept(
-			(detail::has_destroy_v<Alloc, T*>&& detail::has_nothrow_destroy_v<Alloc, T*>) ||
+			detail::has_destroy_v<Alloc, T*> ?
+			detail::has_nothrow_destroy_v<Alloc, T*> :
 			std::is_nothrow_destructible_v<T>)
 		{
 			m_Constructs--;
-- 
2.43.0


From 588ffa9f2465c49727c36e44632a600a8bbd7dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:28:07 +0000
Subject: [PATCH 39/39] fix: linear_allocator kept counting the blocks of the
 arena it was when another one was assigned to it

---
 include/ktl/allocators/linear_allocator.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/ktl/allocators/linear_allocator.h b/include/ktl/allocators/linear_allocator.h
index cae56a9..90b3942 100644
--- a/include/ktl/allocators/linear_allocator.h
+++ b/include/ktl/allocators/linear_allocator.h
@@ -49,6 +49,7 @@ namespace ktl
 		linear_allocator& operator=(linear_allocator&& rhs) noexcept
 		{
 			m_Free = m_Data;
+			m_ObjectCount = 0;
 
 			// Moving raw allocators in use is undefined
 			KTL_ASSERT(rhs.m_ObjectCount == 0);
-- 
2.43.0

