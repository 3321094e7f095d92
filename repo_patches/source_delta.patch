From 18159a3dc115676f09da5544b4849b42d570e0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:21 +0000
Subject: [PATCH 01/85] fix: MemoryPool::Reset now frees every entry of a block
 (instead of toggling a single one)

---
 include/NazaraUtils/MemoryPool.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/MemoryPool.inl b/include/NazaraUtils/MemoryPool.inl
index 2503503..da1bdc0 100644
--- a/include/NazaraUtils/MemoryPool.inl
+++ b/include/NazaraUtils/MemoryPool.inl
@@ -230,8 +230,8 @@ namespace Nz
 				PlacementDestroy(entry);
 			}
 
-			block.freeEntries.Reset(true);
-			block.occupiedEntries.Reset(false);
+			block.freeEntries.Set(true);
+			block.occupiedEntries.Set(false);
 			block.occupiedEntryCount = 0;
 		}
 	}
-- 
2.43.0


From 591454a9442bcea94ef6c5ff49153dc19e0b19dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:21 +0000
Subject: [PATCH 02/85] fix: MemoryPool::RetrieveEntryIndex with an alignment
 greater than the type one

---
 include/NazaraUtils/MemoryPool.inl | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/NazaraUtils/MemoryPool.inl b/include/NazaraUtils/MemoryPool.inl
index da1bdc0..a1fa379 100644
--- a/include/NazaraUtils/MemoryPool.inl
+++ b/include/NazaraUtils/MemoryPool.inl
@@ -287,11 +287,12 @@ namespace Nz
 		for (; blockIndex < m_blocks.size(); ++blockIndex)
 		{
 			auto& block = m_blocks[blockIndex];
-			const T* startPtr = reinterpret_cast<const T*>(&block.memory[0]);
-			if (data >= startPtr && data < startPtr + m_blockSize)
+			const AlignedStorage* startPtr = &block.memory[0];
+			const AlignedStorage* entryPtr = reinterpret_cast<const AlignedStorage*>(data);
+			if (entryPtr >= startPtr && entryPtr < startPtr + m_blockSize)
 			{
-				// Part of block
-				localIndex = SafeCast<std::size_t>(data - startPtr);
+				// Part of block (entries are separated by the size of the storage, which may be greater than sizeof(T))
+				localIndex = SafeCast<std::size_t>(entryPtr - startPtr);
 				assert(data == reinterpret_cast<const T*>(&block.memory[localIndex]));
 
 				break;
-- 
2.43.0


From 9900313d3f077d42fe6628652bc44fa91b66c481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:21 +0000
Subject: [PATCH 03/85] fix: MemoryPool move assignment destroys the entries of
 the overwritten pool

---
 include/NazaraUtils/MemoryPool.hpp |  2 +-
 include/NazaraUtils/MemoryPool.inl | 19 +++++++++++++++++++
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/include/NazaraUtils/MemoryPool.hpp b/include/NazaraUtils/MemoryPool.hpp
index 79a8f2a..4c9bbc7 100644
--- a/include/NazaraUtils/MemoryPool.hpp
+++ b/include/NazaraUtils/MemoryPool.hpp
@@ -63,7 +63,7 @@ namespace Nz
 			std::size_t size();
 
 			MemoryPool& operator=(const MemoryPool&) = delete;
-			MemoryPool& operator=(MemoryPool&& pool) noexcept = default;
+			MemoryPool& operator=(MemoryPool&& pool) noexcept;
 
 			static constexpr DeferConstruct_t DeferConstruct = {};
 			static constexpr std::size_t InvalidIndex = std::numeric_limits<std::size_t>::max();
diff --git a/include/NazaraUtils/MemoryPool.inl b/include/NazaraUtils/MemoryPool.inl
index a1fa379..de74fff 100644
--- a/include/NazaraUtils/MemoryPool.inl
+++ b/include/NazaraUtils/MemoryPool.inl
@@ -351,6 +351,25 @@ namespace Nz
 		return GetAllocatedEntryCount();
 	}
 
+	/*!
+	* \brief Moves a memory pool into this one, calling the destructor of every object allocated by this pool
+	*
+	* \param pool Pool to move from
+	*/
+	template<typename T, std::size_t Alignment>
+	auto MemoryPool<T, Alignment>::operator=(MemoryPool&& pool) noexcept -> MemoryPool&
+	{
+		if (this != &pool)
+		{
+			Clear();
+
+			m_blockSize = pool.m_blockSize;
+			m_blocks = std::move(pool.m_blocks);
+		}
+
+		return *this;
+	}
+
 	template<typename T, std::size_t Alignment>
 	void MemoryPool<T, Alignment>::AllocateBlock()
 	{
-- 
2.43.0


From 07fb0a24cfe18d693f882b6ffb8ec1bf717bf247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:35 +0000
Subject: [PATCH 04/85] fix: Bitset built from a negative integer smaller than
 its blocks no longer has bits set past its size

---
 include/NazaraUtils/Bitset.inl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/NazaraUtils/Bitset.inl b/include/NazaraUtils/Bitset.inl
index 66a8c7a..7bd6019 100644
--- a/include/NazaraUtils/Bitset.inl
+++ b/include/NazaraUtils/Bitset.inl
@@ -125,6 +125,7 @@ namespace Nz
 		{
 			m_bitCount = BitCount<T>;
 			m_blocks.push_back(static_cast<Block>(value));
+			ResetExtraBits(); //< negative values are sign-extended by the cast
 		}
 		else
 		{
-- 
2.43.0


From 51ec4152b3913907424f533f04e107991980358a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:35 +0000
Subject: [PATCH 05/85] fix: Bitset::AppendBits ignores bits past bitCount in
 every case and handles full 32/64 bits blocks

---
 include/NazaraUtils/Bitset.inl | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/NazaraUtils/Bitset.inl b/include/NazaraUtils/Bitset.inl
index 7bd6019..0988a80 100644
--- a/include/NazaraUtils/Bitset.inl
+++ b/include/NazaraUtils/Bitset.inl
@@ -183,12 +183,11 @@ namespace Nz
 				bitCount -= bitsPerBlock;
 			}
 
-			// For the last iteration, mask out the bits we don't want
-			std::size_t remainingBits = bitCount;
-
-			bits &= ((Block(1U) << remainingBits) - 1U);
 			m_blocks.push_back(static_cast<Block>(bits));
 		}
+
+		// Mask out the bits we don't want
+		ResetExtraBits();
 	}
 
 	/*!
-- 
2.43.0


From 699be290b53b25b63e90bf2bf343255c0080ad6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:35 +0000
Subject: [PATCH 06/85] fix: Bitset::Write of zero bits does not read nor skip
 a byte

---
 include/NazaraUtils/Bitset.inl | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/NazaraUtils/Bitset.inl b/include/NazaraUtils/Bitset.inl
index 0988a80..0aa6de7 100644
--- a/include/NazaraUtils/Bitset.inl
+++ b/include/NazaraUtils/Bitset.inl
@@ -368,6 +368,9 @@ namespace Nz
 		NazaraAssertMsg(sequence.first, "invalid pointer sequence");
 		NazaraAssertMsg(sequence.second < 8, "invalid next bit index (must be < 8)");
 
+		if (bitCount == 0)
+			return sequence; //< nothing to read
+
 		std::size_t totalBitCount = sequence.second + bitCount;
 
 		const UInt8* u8Ptr = static_cast<const UInt8*>(sequence.first);
-- 
2.43.0


From d3f229e36a2141632f190a1a725c1fb3cdef3dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:35 +0000
Subject: [PATCH 07/85] fix: Bitset::BitIterator post-increment advances the
 iterator and returns its previous position

---
 include/NazaraUtils/Bitset.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/Bitset.inl b/include/NazaraUtils/Bitset.inl
index 0aa6de7..26057c8 100644
--- a/include/NazaraUtils/Bitset.inl
+++ b/include/NazaraUtils/Bitset.inl
@@ -1437,7 +1437,7 @@ namespace Nz
 	constexpr auto Bitset<Block, Container>::BitIterator::operator++(int) -> BitIterator
 	{
 		BitIterator copy(*this);
-		++copy;
+		++*this;
 		return copy;
 	}
 
-- 
2.43.0


From ad70faba19372e7f48a6497dd5331eee7027a5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:35 +0000
Subject: [PATCH 08/85] fix: Bitset ordering of bitsets with a different number
 of blocks

---
 include/NazaraUtils/Bitset.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/Bitset.inl b/include/NazaraUtils/Bitset.inl
index 26057c8..db11594 100644
--- a/include/NazaraUtils/Bitset.inl
+++ b/include/NazaraUtils/Bitset.inl
@@ -1539,9 +1539,9 @@ namespace Nz
 		std::size_t minBlockCount = lesser.GetBlockCount();
 
 		// If the greatest bitset has a single bit active in a block outside the lesser bitset range, then it is greater
-		for (std::size_t i = maxBlockCount; i > minBlockCount; ++i)
+		for (std::size_t i = maxBlockCount; i > minBlockCount; --i)
 		{
-			if (greater.GetBlock(i))
+			if (greater.GetBlock(i - 1))
 				return lhs.GetBlockCount() < rhs.GetBlockCount();
 		}
 
-- 
2.43.0


From 2440fff347a3a0c2e9cb939939ca260423e4db16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:35 +0000
Subject: [PATCH 09/85] fix: Bitset ordering is decided by the most significant
 block that differs

---
 include/NazaraUtils/Bitset.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/Bitset.inl b/include/NazaraUtils/Bitset.inl
index db11594..5c204e6 100644
--- a/include/NazaraUtils/Bitset.inl
+++ b/include/NazaraUtils/Bitset.inl
@@ -1549,8 +1549,8 @@ namespace Nz
 		for (std::size_t i = 0; i < minBlockCount; ++i)
 		{
 			std::size_t index = (minBlockCount - i - 1); // Compare from the most significant block to the less significant block
-			if (lhs.GetBlock(index) < rhs.GetBlock(index))
-				return true;
+			if (lhs.GetBlock(index) != rhs.GetBlock(index))
+				return lhs.GetBlock(index) < rhs.GetBlock(index);
 		}
 
 		return false; // They are equal
-- 
2.43.0


From 42228a8a765b27dc522f1f7abec22490a06b6a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:51 +0000
Subject: [PATCH 10/85] fix: FixedVector self-assignment no longer empties the
 vector

---
 include/NazaraUtils/FixedVector.inl | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/NazaraUtils/FixedVector.inl b/include/NazaraUtils/FixedVector.inl
index 16f10ca..73e7883 100644
--- a/include/NazaraUtils/FixedVector.inl
+++ b/include/NazaraUtils/FixedVector.inl
@@ -691,6 +691,9 @@ namespace Nz
 	template<typename T, std::size_t Capacity, typename Fallback>
 	constexpr auto FixedVector<T, Capacity, Fallback>::operator=(const FixedVector& vec) -> FixedVector&
 	{
+		if (this == &vec)
+			return *this;
+
 		if constexpr (!std::is_same_v<Fallback, void>)
 		{
 			if (vec.IsUsingFallback())
@@ -712,6 +715,9 @@ namespace Nz
 	template<typename T, std::size_t Capacity, typename Fallback>
 	constexpr auto FixedVector<T, Capacity, Fallback>::operator=(FixedVector&& vec) noexcept -> FixedVector&
 	{
+		if (this == &vec)
+			return *this;
+
 		if constexpr (!std::is_same_v<Fallback, void>)
 		{
 			// Always move fallback container to steal capacity
-- 
2.43.0


From f78d44f33bdc23b90d84743de777447f74f608f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:51 +0000
Subject: [PATCH 11/85] fix: FixedVector destroys its in-place elements when
 assigned from a vector using its fallback

---
 include/NazaraUtils/FixedVector.inl | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/NazaraUtils/FixedVector.inl b/include/NazaraUtils/FixedVector.inl
index 73e7883..33b4825 100644
--- a/include/NazaraUtils/FixedVector.inl
+++ b/include/NazaraUtils/FixedVector.inl
@@ -698,6 +698,9 @@ namespace Nz
 		{
 			if (vec.IsUsingFallback())
 			{
+				if (!IsUsingFallback())
+					clear(); //< destroys the elements stored in-place
+
 				Base::operator=(vec);
 				m_size = vec.m_size;
 				return *this;
@@ -724,6 +727,9 @@ namespace Nz
 			Base::operator=(std::move(vec));
 			if (vec.IsUsingFallback())
 			{
+				if (!IsUsingFallback())
+					clear(); //< destroys the elements stored in-place
+
 				m_size = vec.m_size;
 				return *this;
 			}
-- 
2.43.0


From d6daa49170066162b5cdfa1e64238857921b8116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:51 +0000
Subject: [PATCH 12/85] fix: FixedVector::push_back(T&&) moves the value when
 using its fallback

---
 include/NazaraUtils/FixedVector.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/FixedVector.inl b/include/NazaraUtils/FixedVector.inl
index 33b4825..95e7634 100644
--- a/include/NazaraUtils/FixedVector.inl
+++ b/include/NazaraUtils/FixedVector.inl
@@ -526,7 +526,7 @@ namespace Nz
 		if constexpr (!std::is_same_v<Fallback, void>)
 		{
 			if (CheckFallbackOnGrow())
-				return *Base::EmplaceBackInFallback(value);
+				return *Base::EmplaceBackInFallback(std::move(value));
 		}
 
 		NazaraAssert(m_size < Capacity);
-- 
2.43.0


From ca212cd0bb3885218fa4b57a95471d1da715ecef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:51 +0000
Subject: [PATCH 13/85] fix: FixedVector::erase of a range does not require
 default constructible elements

---
 include/NazaraUtils/FixedVector.inl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/NazaraUtils/FixedVector.inl b/include/NazaraUtils/FixedVector.inl
index 95e7634..cd3143c 100644
--- a/include/NazaraUtils/FixedVector.inl
+++ b/include/NazaraUtils/FixedVector.inl
@@ -467,7 +467,8 @@ namespace Nz
 		std::size_t count = std::distance(first, last);
 
 		std::move(begin() + index + count, end(), begin() + index);
-		resize(size() - count);
+		for (std::size_t i = 0; i < count; ++i)
+			pop_back(); //< resize would require T to be default constructible
 
 		return iterator(data(index));
 	}
-- 
2.43.0


From 6708fd2447bf662ab3e3b918b86d39b5330317ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:52 +0000
Subject: [PATCH 14/85] fix: FixedVector insertions accept a reference to one
 of the elements of the vector

---
 include/NazaraUtils/FixedVector.inl | 30 +++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/FixedVector.inl b/include/NazaraUtils/FixedVector.inl
index cd3143c..01e710e 100644
--- a/include/NazaraUtils/FixedVector.inl
+++ b/include/NazaraUtils/FixedVector.inl
@@ -367,6 +367,13 @@ namespace Nz
 
 		if constexpr (!std::is_same_v<Fallback, void>)
 		{
+			if (!IsUsingFallback() && m_size >= Capacity)
+			{
+				T value(std::forward<Args>(args)...); //< args may reference one of our elements, which are about to be moved
+				MoveStorageToFallback(m_size + 1);
+				return Base::EmplaceInFallback(index, std::move(value));
+			}
+
 			if (CheckFallbackOnGrow())
 				return Base::EmplaceInFallback(index, std::forward<Args>(args)...);
 		}
@@ -374,13 +381,18 @@ namespace Nz
 		NazaraAssert(m_size < Capacity);
 		if (pos < end())
 		{
+			T value(std::forward<Args>(args)...); //< args may reference one of our elements, which are about to be moved
+
 			iterator lastElement = end() - 1;
 			PlacementNew(data(m_size), std::move(*lastElement));
 
 			if (data(index) < lastElement)
 				std::move_backward(data(index), data(m_size - 1), data(m_size));
 
-			PlacementDestroy(data(index));
+			m_size++;
+
+			*data(index) = std::move(value);
+			return data(index);
 		}
 		m_size++;
 
@@ -393,6 +405,13 @@ namespace Nz
 	{
 		if constexpr (!std::is_same_v<Fallback, void>)
 		{
+			if (!IsUsingFallback() && m_size >= Capacity)
+			{
+				T value(std::forward<Args>(args)...); //< args may reference one of our elements, which are about to be moved
+				MoveStorageToFallback(m_size + 1);
+				return *Base::EmplaceBackInFallback(std::move(value));
+			}
+
 			if (CheckFallbackOnGrow())
 				return *Base::EmplaceBackInFallback(std::forward<Args>(args)...);
 		}
@@ -513,6 +532,9 @@ namespace Nz
 	{
 		if constexpr (!std::is_same_v<Fallback, void>)
 		{
+			if (!IsUsingFallback() && m_size >= Capacity)
+				return emplace_back(value);
+
 			if (CheckFallbackOnGrow())
 				return *Base::EmplaceBackInFallback(value);
 		}
@@ -526,6 +548,9 @@ namespace Nz
 	{
 		if constexpr (!std::is_same_v<Fallback, void>)
 		{
+			if (!IsUsingFallback() && m_size >= Capacity)
+				return emplace_back(std::move(value));
+
 			if (CheckFallbackOnGrow())
 				return *Base::EmplaceBackInFallback(std::move(value));
 		}
@@ -597,8 +622,9 @@ namespace Nz
 			}
 			else if (count > Capacity)
 			{
+				T valueCopy(value); //< value may reference one of our elements, which are about to be moved
 				MoveStorageToFallback(count);
-				Base::ResizeFallback(count, value);
+				Base::ResizeFallback(count, valueCopy);
 				return;
 			}
 		}
-- 
2.43.0


From 0951b8847d0189789725983798dbd8a390c11e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:52 +0000
Subject: [PATCH 15/85] fix: FixedVector keeps track of its elements when one
 of their constructors throws

---
 include/NazaraUtils/FixedVector.inl | 67 ++++++++++++++++++-----------
 1 file changed, 43 insertions(+), 24 deletions(-)

diff --git a/include/NazaraUtils/FixedVector.inl b/include/NazaraUtils/FixedVector.inl
index 01e710e..6fcce8a 100644
--- a/include/NazaraUtils/FixedVector.inl
+++ b/include/NazaraUtils/FixedVector.inl
@@ -74,6 +74,17 @@ namespace Nz
 					return fallback.size();
 				}
 
+				void MoveToFallback(T* elements, std::size_t count, std::size_t capacity)
+				{
+					// Don't touch the fallback until every element has been moved, as this may throw
+					Fallback newFallback;
+					newFallback.reserve(capacity);
+					for (std::size_t i = 0; i < count; ++i)
+						newFallback.emplace_back(std::move(elements[i]));
+
+					fallback = std::move(newFallback);
+				}
+
 				void PopBackInFallback()
 				{
 					fallback.pop_back();
@@ -155,6 +166,10 @@ namespace Nz
 					return 0;
 				}
 
+				void MoveToFallback(T* /*elements*/, std::size_t /*count*/, std::size_t /*capacity*/)
+				{
+				}
+
 				void PopBackInFallback()
 				{
 				}
@@ -209,11 +224,12 @@ namespace Nz
 
 	template<typename T, std::size_t Capacity, typename Fallback>
 	constexpr FixedVector<T, Capacity, Fallback>::FixedVector(const FixedVector& vec) :
-	Base(vec)
+	FixedVector()
 	{
+		// Thanks to the delegated construction, elements are destroyed if a copy throws
+		static_cast<Base&>(*this) = vec;
 		if (!vec.IsUsingFallback())
 		{
-			m_size = 0;
 			for (size_type i = 0; i < vec.size(); ++i)
 				push_back(vec[i]);
 		}
@@ -385,18 +401,19 @@ namespace Nz
 
 			iterator lastElement = end() - 1;
 			PlacementNew(data(m_size), std::move(*lastElement));
+			m_size++;
 
 			if (data(index) < lastElement)
-				std::move_backward(data(index), data(m_size - 1), data(m_size));
-
-			m_size++;
+				std::move_backward(data(index), lastElement, data(m_size - 1));
 
 			*data(index) = std::move(value);
 			return data(index);
 		}
-		m_size++;
 
-		return PlacementNew(data(index), std::forward<Args>(args)...);
+		iterator it = PlacementNew(data(index), std::forward<Args>(args)...);
+		m_size++; //< only once the element exists, as its construction may throw
+
+		return it;
 	}
 
 	template<typename T, std::size_t Capacity, typename Fallback>
@@ -417,7 +434,10 @@ namespace Nz
 		}
 
 		NazaraAssert(m_size < Capacity);
-		return *PlacementNew(data(m_size++), std::forward<Args>(args)...);
+		reference element = *PlacementNew(data(m_size), std::forward<Args>(args)...);
+		m_size++; //< only once the element exists, as its construction may throw
+
+		return element;
 	}
 
 	template<typename T, std::size_t Capacity, typename Fallback>
@@ -540,7 +560,10 @@ namespace Nz
 		}
 
 		NazaraAssert(m_size < Capacity);
-		return *PlacementNew(data(m_size++), value);
+		reference element = *PlacementNew(data(m_size), value);
+		m_size++; //< only once the element exists, as its construction may throw
+
+		return element;
 	}
 
 	template<typename T, std::size_t Capacity, typename Fallback>
@@ -556,7 +579,10 @@ namespace Nz
 		}
 
 		NazaraAssert(m_size < Capacity);
-		return *PlacementNew(data(m_size++), std::move(value));
+		reference element = *PlacementNew(data(m_size), std::move(value));
+		m_size++; //< only once the element exists, as its construction may throw
+
+		return element;
 	}
 
 	template<typename T, std::size_t Capacity, typename Fallback>
@@ -596,10 +622,8 @@ namespace Nz
 		NazaraAssert(count <= Capacity);
 		if (count > m_size)
 		{
-			for (std::size_t i = m_size; i < count; ++i)
-				PlacementNew(data(i));
-
-			m_size = count;
+			for (; m_size < count; ++m_size) //< one by one, as the construction may throw
+				PlacementNew(data(m_size));
 		}
 		else if (count < m_size)
 		{
@@ -632,10 +656,8 @@ namespace Nz
 		NazaraAssert(count <= Capacity);
 		if (count > m_size)
 		{
-			for (std::size_t i = m_size; i < count; ++i)
-				PlacementNew(data(i), value);
-
-			m_size = count;
+			for (; m_size < count; ++m_size) //< one by one, as the construction may throw
+				PlacementNew(data(m_size), value);
 		}
 		else if (count < m_size)
 		{
@@ -804,13 +826,10 @@ namespace Nz
 	{
 		NazaraAssert(!IsUsingFallback());
 
-		Base::ReserveFallback(capacity);
+		Base::MoveToFallback(data(), m_size, capacity);
 		for (std::size_t i = 0; i < m_size; ++i)
-		{
-			T* ptr = data(i);
-			Base::EmplaceBackInFallback(std::move(*ptr));
-			PlacementDestroy(ptr);
-		}
+			PlacementDestroy(data(i));
+
 		m_size = FallbackInUse;
 	}
 }
-- 
2.43.0


From 3432afee3d1a22a631b05b2862d85b0316689b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:21 +0000
Subject: [PATCH 16/85] fix: FixedVector(size, value) with integral elements no
 longer selects the iterator constructor

---
 include/NazaraUtils/FixedVector.hpp | 2 +-
 include/NazaraUtils/FixedVector.inl | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/FixedVector.hpp b/include/NazaraUtils/FixedVector.hpp
index 3d7489f..f175754 100644
--- a/include/NazaraUtils/FixedVector.hpp
+++ b/include/NazaraUtils/FixedVector.hpp
@@ -46,7 +46,7 @@ namespace Nz
 
 			constexpr FixedVector();
 			constexpr explicit FixedVector(size_type size, const T& value = T{});
-			template<typename InputIt> constexpr FixedVector(InputIt first, InputIt last);
+			template<typename InputIt, typename = typename std::iterator_traits<InputIt>::iterator_category> constexpr FixedVector(InputIt first, InputIt last);
 			constexpr FixedVector(std::initializer_list<T> init);
 			constexpr FixedVector(const FixedVector& vec);
 			constexpr FixedVector(FixedVector&& vec) noexcept;
diff --git a/include/NazaraUtils/FixedVector.inl b/include/NazaraUtils/FixedVector.inl
index 6fcce8a..c9b9ad6 100644
--- a/include/NazaraUtils/FixedVector.inl
+++ b/include/NazaraUtils/FixedVector.inl
@@ -208,7 +208,7 @@ namespace Nz
 	}
 
 	template<typename T, std::size_t Capacity, typename Fallback>
-	template<typename InputIt>
+	template<typename InputIt, typename>
 	constexpr FixedVector<T, Capacity, Fallback>::FixedVector(InputIt first, InputIt last) :
 	FixedVector()
 	{
-- 
2.43.0


From c9d3d7c7864ba6f5fc467044c79a1453383b9451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:21 +0000
Subject: [PATCH 17/85] fix: FixedVector::push_back is not noexcept when it may
 allocate (fallback)

---
 include/NazaraUtils/FixedVector.hpp | 4 ++--
 include/NazaraUtils/FixedVector.inl | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/NazaraUtils/FixedVector.hpp b/include/NazaraUtils/FixedVector.hpp
index f175754..37e2609 100644
--- a/include/NazaraUtils/FixedVector.hpp
+++ b/include/NazaraUtils/FixedVector.hpp
@@ -94,8 +94,8 @@ namespace Nz
 
 			constexpr size_type max_size() const noexcept;
 
-			constexpr reference push_back(const T& value) noexcept(std::is_nothrow_copy_constructible<T>::value);
-			constexpr reference push_back(T&& value) noexcept(std::is_nothrow_move_constructible<T>::value);
+			constexpr reference push_back(const T& value) noexcept(!Base::HasFallback && std::is_nothrow_copy_constructible<T>::value);
+			constexpr reference push_back(T&& value) noexcept(!Base::HasFallback && std::is_nothrow_move_constructible<T>::value);
 
 			constexpr void pop_back();
 
diff --git a/include/NazaraUtils/FixedVector.inl b/include/NazaraUtils/FixedVector.inl
index c9b9ad6..fd3ff83 100644
--- a/include/NazaraUtils/FixedVector.inl
+++ b/include/NazaraUtils/FixedVector.inl
@@ -548,7 +548,7 @@ namespace Nz
 	}
 
 	template<typename T, std::size_t Capacity, typename Fallback>
-	constexpr auto FixedVector<T, Capacity, Fallback>::push_back(const T& value) noexcept(std::is_nothrow_copy_constructible<T>::value) -> reference
+	constexpr auto FixedVector<T, Capacity, Fallback>::push_back(const T& value) noexcept(!Base::HasFallback && std::is_nothrow_copy_constructible<T>::value) -> reference
 	{
 		if constexpr (!std::is_same_v<Fallback, void>)
 		{
@@ -567,7 +567,7 @@ namespace Nz
 	}
 
 	template<typename T, std::size_t Capacity, typename Fallback>
-	constexpr auto FixedVector<T, Capacity, Fallback>::push_back(T&& value) noexcept(std::is_nothrow_move_constructible<T>::value) -> reference
+	constexpr auto FixedVector<T, Capacity, Fallback>::push_back(T&& value) noexcept(!Base::HasFallback && std::is_nothrow_move_constructible<T>::value) -> reference
 	{
 		if constexpr (!std::is_same_v<Fallback, void>)
 		{
-- 
2.43.0


From d7b310e0194c6aad8798ea2bf9fe26be4ed22133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:12 +0000
Subject: [PATCH 18/85] fix: StackVector does not require default constructible
 elements

---
 include/NazaraUtils/StackVector.inl | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/StackVector.inl b/include/NazaraUtils/StackVector.inl
index 48b3502..cb88cff 100644
--- a/include/NazaraUtils/StackVector.inl
+++ b/include/NazaraUtils/StackVector.inl
@@ -76,7 +76,11 @@ namespace Nz
 	template<typename T>
 	void StackVector<T>::clear() noexcept
 	{
-		resize(0);
+		// can't use resize(0); since it will try to instantiate the default-construction part (which won't compile for classes having no default constructor)
+		for (std::size_t i = 0; i < m_size; ++i)
+			PlacementDestroy(&m_ptr[i]);
+
+		m_size = 0;
 	}
 
 	template<typename T>
@@ -189,7 +193,8 @@ namespace Nz
 		std::size_t count = std::distance(first, last);
 
 		std::move(begin() + index + count, end(), begin() + index);
-		resize(size() - count);
+		for (std::size_t i = 0; i < count; ++i)
+			pop_back(); //< resize would require T to be default constructible
 
 		return iterator(&m_ptr[index]);
 	}
-- 
2.43.0


From 11adf2e7c5ba80d33fef19a8d428b77da71f1dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:12 +0000
Subject: [PATCH 19/85] fix: moving a StackVector transfers the ownership of
 its elements

---
 include/NazaraUtils/StackVector.hpp |  4 ++--
 include/NazaraUtils/StackVector.inl | 18 ++++++++++++++++++
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/StackVector.hpp b/include/NazaraUtils/StackVector.hpp
index 2bf14a7..7f06b0c 100644
--- a/include/NazaraUtils/StackVector.hpp
+++ b/include/NazaraUtils/StackVector.hpp
@@ -41,7 +41,7 @@ namespace Nz
 			StackVector();
 			StackVector(T* stackMemory, std::size_t capacity);
 			StackVector(const StackVector&) = delete;
-			StackVector(StackVector&&) noexcept = default;
+			StackVector(StackVector&& vector) noexcept;
 			~StackVector();
 
 			reference back();
@@ -104,7 +104,7 @@ namespace Nz
 			const_reference operator[](size_type pos) const;
 
 			StackVector& operator=(const StackVector&) = delete;
-			StackVector& operator=(StackVector&&) noexcept = default;
+			StackVector& operator=(StackVector&& vector) noexcept;
 
 		private:
 			std::size_t m_capacity;
diff --git a/include/NazaraUtils/StackVector.inl b/include/NazaraUtils/StackVector.inl
index cb88cff..3d09247 100644
--- a/include/NazaraUtils/StackVector.inl
+++ b/include/NazaraUtils/StackVector.inl
@@ -31,6 +31,14 @@ namespace Nz
 	{
 	}
 
+	template<typename T>
+	StackVector<T>::StackVector(StackVector&& vector) noexcept :
+	m_capacity(std::exchange(vector.m_capacity, 0)),
+	m_size(std::exchange(vector.m_size, 0)),
+	m_ptr(std::move(vector.m_ptr))
+	{
+	}
+
 	template<typename T>
 	StackVector<T>::~StackVector()
 	{
@@ -335,4 +343,14 @@ namespace Nz
 		assert(pos < m_size);
 		return m_ptr[pos];
 	}
+
+	template<typename T>
+	StackVector<T>& StackVector<T>::operator=(StackVector&& vector) noexcept
+	{
+		std::swap(m_capacity, vector.m_capacity);
+		std::swap(m_size, vector.m_size);
+		std::swap(m_ptr, vector.m_ptr);
+
+		return *this;
+	}
 }
-- 
2.43.0


From 92bcd4e77617e64f50036c1faff5cd2c88294c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:12 +0000
Subject: [PATCH 20/85] fix: moving a StackArray transfers the ownership of its
 elements

---
 include/NazaraUtils/StackArray.hpp |  4 ++--
 include/NazaraUtils/StackArray.inl | 16 ++++++++++++++++
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/StackArray.hpp b/include/NazaraUtils/StackArray.hpp
index 3654a89..d7add20 100644
--- a/include/NazaraUtils/StackArray.hpp
+++ b/include/NazaraUtils/StackArray.hpp
@@ -45,7 +45,7 @@ namespace Nz
 			StackArray(T* stackMemory, std::size_t size);
 			StackArray(T* stackMemory, std::size_t size, NoInitTag);
 			StackArray(const StackArray&) = delete;
-			StackArray(StackArray&&) = default;
+			StackArray(StackArray&& array) noexcept;
 			~StackArray();
 
 			reference back();
@@ -86,7 +86,7 @@ namespace Nz
 			const_reference operator[](size_type pos) const;
 
 			StackArray& operator=(const StackArray&) = delete;
-			StackArray& operator=(StackArray&&) = default;
+			StackArray& operator=(StackArray&& array) noexcept;
 
 		private:
 			std::size_t m_size;
diff --git a/include/NazaraUtils/StackArray.inl b/include/NazaraUtils/StackArray.inl
index d3bd353..b8c99cb 100644
--- a/include/NazaraUtils/StackArray.inl
+++ b/include/NazaraUtils/StackArray.inl
@@ -38,6 +38,13 @@ namespace Nz
 	{
 	}
 
+	template<typename T>
+	StackArray<T>::StackArray(StackArray&& array) noexcept :
+	m_size(std::exchange(array.m_size, 0)),
+	m_ptr(std::move(array.m_ptr))
+	{
+	}
+
 	template<typename T>
 	StackArray<T>::~StackArray()
 	{
@@ -196,4 +203,13 @@ namespace Nz
 		assert(pos < m_size);
 		return m_ptr[pos];
 	}
+
+	template<typename T>
+	StackArray<T>& StackArray<T>::operator=(StackArray&& array) noexcept
+	{
+		std::swap(m_size, array.m_size);
+		std::swap(m_ptr, array.m_ptr);
+
+		return *this;
+	}
 }
-- 
2.43.0


From 6d18d026905169a7c18e00a68b6536189856d091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:12 +0000
Subject: [PATCH 21/85] fix: StackArray destroys its first elements when the
 construction of one of them throws

---
 include/NazaraUtils/StackArray.inl | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/NazaraUtils/StackArray.inl b/include/NazaraUtils/StackArray.inl
index b8c99cb..c14fc9b 100644
--- a/include/NazaraUtils/StackArray.inl
+++ b/include/NazaraUtils/StackArray.inl
@@ -24,11 +24,11 @@ namespace Nz
 
 	template<typename T>
 	StackArray<T>::StackArray(T* stackMemory, std::size_t size) :
-	m_size(size),
-	m_ptr(stackMemory)
+	StackArray(stackMemory, 0, NoInitTag{})
 	{
-		for (std::size_t i = 0; i < m_size; ++i)
-			PlacementNew(&m_ptr[i]);
+		// One by one, as the construction may throw
+		for (; m_size < size; ++m_size)
+			PlacementNew(&m_ptr[m_size]);
 	}
 
 	template<typename T>
-- 
2.43.0


From b616d185164acd2d91b13cdac638939cf97d1a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:12 +0000
Subject: [PATCH 22/85] fix: StackVector insertions accept a reference to one
 of the elements of the vector

---
 include/NazaraUtils/StackVector.inl | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/NazaraUtils/StackVector.inl b/include/NazaraUtils/StackVector.inl
index 3d09247..c4af686 100644
--- a/include/NazaraUtils/StackVector.inl
+++ b/include/NazaraUtils/StackVector.inl
@@ -137,13 +137,18 @@ namespace Nz
 		std::size_t index = std::distance(cbegin(), pos);
 		if (pos < end())
 		{
+			T value(std::forward<Args>(args)...); //< args may reference one of our elements, which are about to be moved
+
 			iterator lastElement = end() - 1;
 			PlacementNew(&m_ptr[m_size], std::move(*lastElement));
 
 			if (&m_ptr[index] < lastElement)
 				std::move_backward(&m_ptr[index], &m_ptr[m_size - 1], &m_ptr[m_size]);
 
-			PlacementDestroy(&m_ptr[index]);
+			m_size++;
+
+			m_ptr[index] = std::move(value);
+			return &m_ptr[index];
 		}
 		m_size++;
 
-- 
2.43.0


From d269fcc42b9123221585385f342dc30de60bcb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:12 +0000
Subject: [PATCH 23/85] fix: StackVector keeps track of its elements when one
 of their constructors throws

---
 include/NazaraUtils/StackVector.inl | 38 +++++++++++++++++------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/include/NazaraUtils/StackVector.inl b/include/NazaraUtils/StackVector.inl
index c4af686..8ded5bf 100644
--- a/include/NazaraUtils/StackVector.inl
+++ b/include/NazaraUtils/StackVector.inl
@@ -141,18 +141,19 @@ namespace Nz
 
 			iterator lastElement = end() - 1;
 			PlacementNew(&m_ptr[m_size], std::move(*lastElement));
+			m_size++;
 
 			if (&m_ptr[index] < lastElement)
-				std::move_backward(&m_ptr[index], &m_ptr[m_size - 1], &m_ptr[m_size]);
-
-			m_size++;
+				std::move_backward(&m_ptr[index], lastElement, &m_ptr[m_size - 1]);
 
 			m_ptr[index] = std::move(value);
 			return &m_ptr[index];
 		}
-		m_size++;
 
-		return PlacementNew(&m_ptr[index], std::forward<Args>(args)...);
+		iterator it = PlacementNew(&m_ptr[index], std::forward<Args>(args)...);
+		m_size++; //< only once the element exists, as its construction may throw
+
+		return it;
 	}
 
 	template<typename T>
@@ -160,7 +161,10 @@ namespace Nz
 	typename StackVector<T>::reference StackVector<T>::emplace_back(Args&&... args)
 	{
 		assert(m_size < m_capacity);
-		return *PlacementNew(&m_ptr[m_size++], std::forward<Args>(args)...);
+		reference element = *PlacementNew(&m_ptr[m_size], std::forward<Args>(args)...);
+		m_size++; //< only once the element exists, as its construction may throw
+
+		return element;
 	}
 
 	template<typename T>
@@ -248,14 +252,20 @@ namespace Nz
 	typename StackVector<T>::reference StackVector<T>::push_back(const T& value) noexcept(std::is_nothrow_copy_constructible<T>::value)
 	{
 		assert(m_size < m_capacity);
-		return *PlacementNew(&m_ptr[m_size++], value);
+		reference element = *PlacementNew(&m_ptr[m_size], value);
+		m_size++; //< only once the element exists, as its construction may throw
+
+		return element;
 	}
 
 	template<typename T>
 	typename StackVector<T>::reference StackVector<T>::push_back(T&& value) noexcept(std::is_nothrow_move_constructible<T>::value)
 	{
 		assert(m_size < m_capacity);
-		return *PlacementNew(&m_ptr[m_size++], std::move(value));
+		reference element = *PlacementNew(&m_ptr[m_size], std::move(value));
+		m_size++; //< only once the element exists, as its construction may throw
+
+		return element;
 	}
 
 	template<typename T>
@@ -271,10 +281,8 @@ namespace Nz
 		assert(count <= m_capacity);
 		if (count > m_size)
 		{
-			for (std::size_t i = m_size; i < count; ++i)
-				PlacementNew(&m_ptr[i]);
-
-			m_size = count;
+			for (; m_size < count; ++m_size) //< one by one, as the construction may throw
+				PlacementNew(&m_ptr[m_size]);
 		}
 		else if (count < m_size)
 		{
@@ -291,10 +299,8 @@ namespace Nz
 		assert(count <= m_capacity);
 		if (count > m_size)
 		{
-			for (std::size_t i = m_size; i < count; ++i)
-				PlacementNew(&m_ptr[i], value);
-
-			m_size = count;
+			for (; m_size < count; ++m_size) //< one by one, as the construction may throw
+				PlacementNew(&m_ptr[m_size], value);
 		}
 		else if (count < m_size)
 		{
-- 
2.43.0


From 44d4641fc065100e879b22a5a1ff687f07b342d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:58 +0000
Subject: [PATCH 24/85] fix: FixedVector::reserve of a small capacity when
 already using the fallback

---
 include/NazaraUtils/FixedVector.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/FixedVector.inl b/include/NazaraUtils/FixedVector.inl
index fd3ff83..2ad7f07 100644
--- a/include/NazaraUtils/FixedVector.inl
+++ b/include/NazaraUtils/FixedVector.inl
@@ -673,7 +673,7 @@ namespace Nz
 	{
 		if constexpr (!std::is_same_v<Fallback, void>)
 		{
-			if (count <= Capacity)
+			if (count <= Capacity && !IsUsingFallback())
 				return;
 
 			if (!IsUsingFallback())
-- 
2.43.0


From a32ee562009f281c3f0af06e3a9734c360f152d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:40 +0000
Subject: [PATCH 25/85] fix: MemoryPool::Allocate frees its entry when the
 constructor throws

---
 include/NazaraUtils/MemoryPool.inl | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/NazaraUtils/MemoryPool.inl b/include/NazaraUtils/MemoryPool.inl
index de74fff..b45c3a1 100644
--- a/include/NazaraUtils/MemoryPool.inl
+++ b/include/NazaraUtils/MemoryPool.inl
@@ -3,6 +3,7 @@
 // For conditions of distribution and use, see copyright notice in Config.hpp
 
 #include <NazaraUtils/Algorithm.hpp>
+#include <NazaraUtils/CallOnExit.hpp>
 #include <NazaraUtils/MemoryHelper.hpp>
 #include <stdexcept>
 #include <utility>
@@ -93,7 +94,9 @@ namespace Nz
 	T* MemoryPool<T, Alignment>::Allocate(std::size_t& index, Args&&... args)
 	{
 		T* entry = Allocate(DeferConstruct, index);
+		CallOnExit freeOnFailure([&] { Free(index, NoDestruction); });
 		PlacementNew(entry, std::forward<Args>(args)...);
+		freeOnFailure.Reset();
 
 		return entry;
 	}
-- 
2.43.0


From 2794260504fbb74a740a31a26cd5e1ea0538e944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:40 +0000
Subject: [PATCH 26/85] fix: MemoryPool does not keep an incomplete block when
 an allocation fails

---
 include/NazaraUtils/MemoryPool.inl | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/NazaraUtils/MemoryPool.inl b/include/NazaraUtils/MemoryPool.inl
index b45c3a1..2980480 100644
--- a/include/NazaraUtils/MemoryPool.inl
+++ b/include/NazaraUtils/MemoryPool.inl
@@ -376,10 +376,12 @@ namespace Nz
 	template<typename T, std::size_t Alignment>
 	void MemoryPool<T, Alignment>::AllocateBlock()
 	{
-		auto& block = m_blocks.emplace_back();
+		Block block;
 		block.freeEntries.Resize(m_blockSize, true);
 		block.occupiedEntries.Resize(m_blockSize, false);
 		block.memory = std::make_unique<AlignedStorage[]>(m_blockSize);
+
+		m_blocks.push_back(std::move(block));
 	}
 
 	template<typename T, std::size_t Alignment>
-- 
2.43.0


From 339c821934c7e3de965643fa50b5b8c05b2866b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:34 +0000
Subject: [PATCH 27/85] fix: Signal::ConnectionGuard can be assigned from a
 Connection&&

---
 include/NazaraUtils/Signal.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/Signal.inl b/include/NazaraUtils/Signal.inl
index f5803ee..0d6a161 100644
--- a/include/NazaraUtils/Signal.inl
+++ b/include/NazaraUtils/Signal.inl
@@ -451,7 +451,7 @@ namespace Nz
 	template<typename... Args>
 	typename Signal<Args...>::ConnectionGuard& Signal<Args...>::ConnectionGuard::operator=(Connection&& connection)
 	{
-		if (&connection != this)
+		if (&connection != &m_connection)
 		{
 			m_connection.Disconnect();
 			m_connection = std::move(connection);
-- 
2.43.0


From 855718d402a8e314fcfd2a5c6a4d806ac027ef77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:34 +0000
Subject: [PATCH 28/85] fix: connecting to a signal after disconnecting the
 first slot from its own callback no longer skips the other slots

---
 include/NazaraUtils/Signal.inl | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/NazaraUtils/Signal.inl b/include/NazaraUtils/Signal.inl
index 0d6a161..d62e19c 100644
--- a/include/NazaraUtils/Signal.inl
+++ b/include/NazaraUtils/Signal.inl
@@ -3,6 +3,7 @@
 // For conditions of distribution and use, see copyright notice in Config.hpp
 
 #include <cassert>
+#include <limits>
 #include <utility>
 
 namespace Nz
@@ -83,7 +84,8 @@ namespace Nz
 
 		// Since we're incrementing the slot vector size, we need to replace our iterator at the end
 		// (Except when we are iterating on the signal)
-		bool resetIt = (m_slotIterator >= m_slots.size());
+		// (the iterator wraps around when the first slot gets disconnected while being iterated on)
+		bool resetIt = (m_slotIterator >= m_slots.size() && m_slotIterator != std::numeric_limits<SlotListIndex>::max());
 
 		auto tempPtr = std::make_shared<Slot>(this);
 		tempPtr->callback = std::move(func);
-- 
2.43.0


From 33fe4d1c654526adbf3a001bfb2f3e29263a88d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:34 +0000
Subject: [PATCH 29/85] fix: a moved-from Signal is empty

---
 include/NazaraUtils/Signal.inl | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/NazaraUtils/Signal.inl b/include/NazaraUtils/Signal.inl
index d62e19c..07369fb 100644
--- a/include/NazaraUtils/Signal.inl
+++ b/include/NazaraUtils/Signal.inl
@@ -208,6 +208,9 @@ namespace Nz
 		m_slots = std::move(signal.m_slots);
 		m_slotIterator = signal.m_slotIterator;
 
+		if (&signal != this)
+			signal.Clear(); //< the moved list may still hold (null) slots
+
 		// We need to update the signal pointer inside of each slot
 		for (SlotPtr& slot : m_slots)
 			slot->signal = this;
-- 
2.43.0


From f0fdd3efefa29634c932140f3901e046dfbb1a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:34 +0000
Subject: [PATCH 30/85] fix: Signal no longer destroys a callback which
 disconnects itself while it's running

---
 include/NazaraUtils/Signal.hpp | 2 +-
 include/NazaraUtils/Signal.inl | 8 ++++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/NazaraUtils/Signal.hpp b/include/NazaraUtils/Signal.hpp
index 139dde5..bcd258d 100644
--- a/include/NazaraUtils/Signal.hpp
+++ b/include/NazaraUtils/Signal.hpp
@@ -65,7 +65,7 @@ namespace Nz
 				{
 				}
 
-				Callback callback;
+				std::shared_ptr<Callback> callback;
 				Signal* signal;
 				SlotListIndex index;
 			};
diff --git a/include/NazaraUtils/Signal.inl b/include/NazaraUtils/Signal.inl
index 07369fb..9fd286a 100644
--- a/include/NazaraUtils/Signal.inl
+++ b/include/NazaraUtils/Signal.inl
@@ -88,7 +88,7 @@ namespace Nz
 		bool resetIt = (m_slotIterator >= m_slots.size() && m_slotIterator != std::numeric_limits<SlotListIndex>::max());
 
 		auto tempPtr = std::make_shared<Slot>(this);
-		tempPtr->callback = std::move(func);
+		tempPtr->callback = std::make_shared<Callback>(std::move(func));
 		tempPtr->index = m_slots.size();
 
 		m_slots.emplace_back(std::move(tempPtr));
@@ -181,7 +181,11 @@ namespace Nz
 	void Signal<Args...>::operator()(Args... args) const
 	{
 		for (m_slotIterator = 0; m_slotIterator < m_slots.size(); ++m_slotIterator)
-			m_slots[m_slotIterator]->callback(args...);
+		{
+			// The callback may disconnect itself, keep it alive until it returns
+			std::shared_ptr<Callback> callback = m_slots[m_slotIterator]->callback;
+			(*callback)(args...);
+		}
 	}
 
 	/*!
-- 
2.43.0


From 0138afc89e039c558048207fd282b9fcd5d1c8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:50 +0000
Subject: [PATCH 31/85] fix: FNV1a of strings holding bytes >= 0x80 (where char
 is signed) hashes bytes

---
 include/NazaraUtils/Hash.inl | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/NazaraUtils/Hash.inl b/include/NazaraUtils/Hash.inl
index 5414680..8f6104e 100644
--- a/include/NazaraUtils/Hash.inl
+++ b/include/NazaraUtils/Hash.inl
@@ -147,7 +147,7 @@ NAZARA_WARNING_POP()
 
 		for (std::size_t i = 0u; str[i]; ++i)
 		{
-			hash ^= UInt32(str[i]);
+			hash ^= static_cast<UInt8>(str[i]);
 			hash *= Detail::FNV1Prime_32;
 		}
 
@@ -160,7 +160,7 @@ NAZARA_WARNING_POP()
 
 		for (std::size_t i = 0u; i < str.size(); ++i)
 		{
-			hash ^= UInt32(str[i]);
+			hash ^= static_cast<UInt8>(str[i]);
 			hash *= Detail::FNV1Prime_32;
 		}
 
@@ -199,7 +199,7 @@ NAZARA_WARNING_POP()
 
 		for (std::size_t i = 0u; str[i]; ++i)
 		{
-			hash ^= UInt64(str[i]);
+			hash ^= static_cast<UInt8>(str[i]);
 			hash *= Detail::FNV1Prime_64;
 		}
 
@@ -212,7 +212,7 @@ NAZARA_WARNING_POP()
 
 		for (std::size_t i = 0u; i < str.size(); ++i)
 		{
-			hash ^= UInt64(str[i]);
+			hash ^= static_cast<UInt8>(str[i]);
 			hash *= Detail::FNV1Prime_64;
 		}
 
-- 
2.43.0


From 8d8d628309015f34ff2e65b65b97d1f1814bfe19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:50 +0000
Subject: [PATCH 32/85] fix: CountBits of negative integers smaller than int

---
 include/NazaraUtils/MathUtils.inl | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/NazaraUtils/MathUtils.inl b/include/NazaraUtils/MathUtils.inl
index 87ec435..118488a 100644
--- a/include/NazaraUtils/MathUtils.inl
+++ b/include/NazaraUtils/MathUtils.inl
@@ -346,16 +346,17 @@ namespace Nz
 			else
 			{
 				static_assert(sizeof(T) <= sizeof(unsigned int));
-				return __builtin_popcount(static_cast<unsigned int>(value));
+				return __builtin_popcount(static_cast<std::make_unsigned_t<T>>(value));
 			}
 #endif
 		}
 
 		// https://graphics.stanford.edu/~seander/bithacks.html#CountBitsSetKernighan
 		std::size_t count = 0;
-		while (value)
+		auto unsignedVal = static_cast<std::make_unsigned_t<T>>(value);
+		while (unsignedVal)
 		{
-			value &= value - 1;
+			unsignedVal &= unsignedVal - 1;
 			count++;
 		}
 
-- 
2.43.0


From 050339b7cfad3d86b649c781842897730b1f0d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:50 +0000
Subject: [PATCH 33/85] fix: FindLastBit of negative integers smaller than int

---
 include/NazaraUtils/MathUtils.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/MathUtils.inl b/include/NazaraUtils/MathUtils.inl
index 118488a..eafc7a6 100644
--- a/include/NazaraUtils/MathUtils.inl
+++ b/include/NazaraUtils/MathUtils.inl
@@ -467,7 +467,7 @@ NAZARA_WARNING_POP()
 			else
 			{
 				static_assert(sizeof(T) <= sizeof(int));
-				return BitCount<unsigned int> - __builtin_clz(static_cast<unsigned int>(number));
+				return BitCount<unsigned int> - __builtin_clz(static_cast<std::make_unsigned_t<T>>(number));
 			}
 #endif
 		}
-- 
2.43.0


From 0e23cc335de77f706653a9697e441ab96ea1d042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:50 +0000
Subject: [PATCH 34/85] fix: IntegralLog2 of 64bits integers whose highest bit
 is the 32th

---
 include/NazaraUtils/MathUtils.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/MathUtils.inl b/include/NazaraUtils/MathUtils.inl
index eafc7a6..1e31f89 100644
--- a/include/NazaraUtils/MathUtils.inl
+++ b/include/NazaraUtils/MathUtils.inl
@@ -71,7 +71,7 @@ namespace Nz
 
 				// Call of the function with 32 bits number, if the result is non-null we have our answer
 				unsigned int log2 = IntegralLog2<UInt32>(static_cast<UInt32>(val));
-				if (log2)
+				if (log2 || val == 1)
 					return log2 + i * 8;
 			}
 
-- 
2.43.0


From 0004b132dcca0c0532e7f4c8872eeebba57d6712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:50 +0000
Subject: [PATCH 35/85] fix: SwapBytes of an empty buffer

---
 include/NazaraUtils/MathUtils.inl | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/NazaraUtils/MathUtils.inl b/include/NazaraUtils/MathUtils.inl
index 1e31f89..3c9adf0 100644
--- a/include/NazaraUtils/MathUtils.inl
+++ b/include/NazaraUtils/MathUtils.inl
@@ -536,6 +536,9 @@ NAZARA_WARNING_POP()
 	inline void SwapBytes(void* buffer, std::size_t size) noexcept
 	{
 		UInt8* bytes = static_cast<UInt8*>(buffer);
+		if (size == 0)
+			return;
+
 		std::size_t i = 0;
 		std::size_t j = size - 1;
 
-- 
2.43.0


From 1fd78e3a2f59efd709096d2019a40a84f8447bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:50 +0000
Subject: [PATCH 36/85] fix: NumberEquals of signed integers smaller than int

---
 include/NazaraUtils/MathUtils.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/MathUtils.inl b/include/NazaraUtils/MathUtils.inl
index 3c9adf0..3d57d0f 100644
--- a/include/NazaraUtils/MathUtils.inl
+++ b/include/NazaraUtils/MathUtils.inl
@@ -138,7 +138,7 @@ namespace Nz
 				std::swap(a, b);
 
 			using UnsignedT = std::make_unsigned_t<T>;
-			return static_cast<UnsignedT>(a) - static_cast<UnsignedT>(b) <= static_cast<UnsignedT>(maxDifference);
+			return static_cast<UnsignedT>(static_cast<UnsignedT>(a) - static_cast<UnsignedT>(b)) <= static_cast<UnsignedT>(maxDifference);
 		}
 	}
 
-- 
2.43.0


From e0264ff1f4629a319d35f2fb42d7c4e17f86111f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:50 +0000
Subject: [PATCH 37/85] fix: Align overflow with an already aligned offset near
 the maximum value, and negative offsets

---
 include/NazaraUtils/MathUtils.inl | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/NazaraUtils/MathUtils.inl b/include/NazaraUtils/MathUtils.inl
index 3d57d0f..f27ff65 100644
--- a/include/NazaraUtils/MathUtils.inl
+++ b/include/NazaraUtils/MathUtils.inl
@@ -595,7 +595,11 @@ NAZARA_WARNING_POP()
 	[[nodiscard]] constexpr T Align(T offset, T alignment) noexcept
 	{
 		NazaraAssert(alignment > 0);
-		return ((offset + alignment - 1) / alignment) * alignment;
+		T remainder = offset % alignment;
+		if (remainder > 0)
+			return offset + (alignment - remainder);
+
+		return offset - remainder;
 	}
 
 	/*!
-- 
2.43.0


From 9f540a8c7b8b18818857baf2f9393b831a6e322b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:16 +0000
Subject: [PATCH 38/85] fix: Approach overflows (unsigned integers, values
 close to the limits) and does not compile with small integers

---
 include/NazaraUtils/MathUtils.inl | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/include/NazaraUtils/MathUtils.inl b/include/NazaraUtils/MathUtils.inl
index f27ff65..8a8ed38 100644
--- a/include/NazaraUtils/MathUtils.inl
+++ b/include/NazaraUtils/MathUtils.inl
@@ -633,12 +633,29 @@ NAZARA_WARNING_POP()
 	template<typename T>
 	[[nodiscard]] constexpr T Approach(T value, T objective, T increment) noexcept
 	{
-		if (value < objective)
-			return std::min(value + increment, objective);
-		else if (value > objective)
-			return std::max(value - increment, objective);
+		if constexpr (std::is_integral_v<T>)
+		{
+			// Compare distances, as adding the increment may overflow
+			using UnsignedT = std::make_unsigned_t<T>;
+
+			UnsignedT distance = static_cast<UnsignedT>((value < objective) ? static_cast<UnsignedT>(objective) - static_cast<UnsignedT>(value) : static_cast<UnsignedT>(value) - static_cast<UnsignedT>(objective));
+			if (increment > 0 && distance <= static_cast<UnsignedT>(increment))
+				return objective;
+
+			if (value == objective)
+				return value;
+
+			return static_cast<T>((value < objective) ? value + increment : value - increment);
+		}
 		else
-			return value;
+		{
+			if (value < objective)
+				return std::min(value + increment, objective);
+			else if (value > objective)
+				return std::max(value - increment, objective);
+			else
+				return value;
+		}
 	}
 
 	/*!
-- 
2.43.0


From fc8a616c6ce4731a368208bd8088ac6d5373ad33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:16 +0000
Subject: [PATCH 39/85] fix: Lerp of unsigned integers towards a lower value

---
 include/NazaraUtils/MathUtils.inl | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/NazaraUtils/MathUtils.inl b/include/NazaraUtils/MathUtils.inl
index 8a8ed38..673c9ff 100644
--- a/include/NazaraUtils/MathUtils.inl
+++ b/include/NazaraUtils/MathUtils.inl
@@ -841,6 +841,12 @@ NAZARA_WARNING_POP()
 	template<typename T, typename T2>
 	[[nodiscard]] constexpr T Lerp(const T& from, const T& to, const T2& interpolation) noexcept
 	{
+		if constexpr (std::is_unsigned_v<T>)
+		{
+			if (to < from)
+				return static_cast<T>(from - interpolation * (from - to)); //< to - from would overflow
+		}
+
 		return static_cast<T>(from + interpolation * (to - from));
 	}
 
-- 
2.43.0


From 93f54757d8531d4c3e2505f1a4534db86803ffcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:01 +0000
Subject: [PATCH 40/85] fix: undefined behavior in ReverseBits of signed
 integers

---
 include/NazaraUtils/MathUtils.inl | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/NazaraUtils/MathUtils.inl b/include/NazaraUtils/MathUtils.inl
index 673c9ff..9864460 100644
--- a/include/NazaraUtils/MathUtils.inl
+++ b/include/NazaraUtils/MathUtils.inl
@@ -500,11 +500,11 @@ NAZARA_WARNING_POP()
 	template<NAZARA_STD_CONCEPT_T(std::integral) T>
 	[[nodiscard]] constexpr T ReverseBits(T integer) noexcept
 	{
-		T reversed = 0;
+		std::make_unsigned_t<T> reversed = 0; //< left shift of negative values is undefined behavior (before C++20)
 		for (std::size_t i = 0; i < sizeof(T); ++i)
-			reversed |= T(Detail::s_BitReverseTable256[(integer >> i * 8) & 0xFF]) << (sizeof(T) * 8 - (i + 1) * 8);
+			reversed |= std::make_unsigned_t<T>(Detail::s_BitReverseTable256[(integer >> i * 8) & 0xFF]) << (sizeof(T) * 8 - (i + 1) * 8);
 
-		return reversed;
+		return static_cast<T>(reversed);
 	}
 
 	/*!
-- 
2.43.0


From c8908f430cffeb1e4fcad7da05ad7f7f6d3ec08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:01 +0000
Subject: [PATCH 41/85] fix: signed overflow in AlignPow2 with representable
 results

---
 include/NazaraUtils/MathUtils.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/MathUtils.inl b/include/NazaraUtils/MathUtils.inl
index 9864460..370c677 100644
--- a/include/NazaraUtils/MathUtils.inl
+++ b/include/NazaraUtils/MathUtils.inl
@@ -618,7 +618,7 @@ NAZARA_WARNING_POP()
 	{
 		NazaraAssert(alignment > 0);
 		NazaraAssert(IsPow2(alignment));
-		return (offset + alignment - 1) & ~(alignment - 1);
+		return (offset + (alignment - 1)) & ~(alignment - 1);
 	}
 
 	/*!
-- 
2.43.0


From 7e30628f488192bdb40ee3870887c7dce4cbf0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:45 +0000
Subject: [PATCH 42/85] fix: Flags of enumerations with more than 32 values

---
 include/NazaraUtils/Flags.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/Flags.inl b/include/NazaraUtils/Flags.inl
index 33632b0..df62a9b 100644
--- a/include/NazaraUtils/Flags.inl
+++ b/include/NazaraUtils/Flags.inl
@@ -283,7 +283,7 @@ namespace Nz
 	constexpr auto Flags<E>::GetFlagValue(E enumValue) -> BitField
 	{
 		if constexpr (AutoFlag)
-			return 1U << static_cast<BitField>(enumValue);
+			return static_cast<BitField>(BitField(1) << static_cast<BitField>(enumValue));
 		else
 			return static_cast<BitField>(enumValue);
 	}
@@ -332,7 +332,7 @@ namespace Nz
 		if constexpr (AutoFlag)
 			return static_cast<T>(bitIndex - 1);
 		else
-			return static_cast<T>(1U << ((bitIndex) - 1));
+			return static_cast<T>(BitField(1) << ((bitIndex) - 1));
 	}
 
 	/*!
-- 
2.43.0


From 15b546cf20f2508a305c0a06d630ed1fd53ed5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:45 +0000
Subject: [PATCH 43/85] fix: Flags of an enumeration of 64 values

---
 include/NazaraUtils/Flags.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/Flags.hpp b/include/NazaraUtils/Flags.hpp
index a7b773a..3c70fb3 100644
--- a/include/NazaraUtils/Flags.hpp
+++ b/include/NazaraUtils/Flags.hpp
@@ -97,7 +97,7 @@ namespace Nz
 
 			static constexpr BitField GetFlagValue(E enumValue);
 
-			static constexpr BitField ValueMask = BitField((UInt64(1) << (MaxValue + 1)) - 1);
+			static constexpr BitField ValueMask = BitField(~UInt64(0) >> (63 - MaxValue));
 
 		private:
 			BitField m_value;
-- 
2.43.0


From 359058636131e07707b1973220e5079fde0a156b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:45 +0000
Subject: [PATCH 44/85] fix: Flags of enumerations whose values are already
 flags only complement the bits of their values

---
 include/NazaraUtils/Flags.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/Flags.hpp b/include/NazaraUtils/Flags.hpp
index 3c70fb3..33dc94f 100644
--- a/include/NazaraUtils/Flags.hpp
+++ b/include/NazaraUtils/Flags.hpp
@@ -53,8 +53,8 @@ namespace Nz
 		static_assert(std::is_enum_v<E>, "Type must be an enumeration");
 		static_assert(IsEnumFlag<E>(), "Enum has not been enabled as flags by an EnumAsFlags specialization nor EnableEnumAsNzFlags ADL function");
 
-		static constexpr std::size_t MaxValue = GetEnumFlagMax<E>::max;
 		static constexpr bool AutoFlag = GetEnumAutoFlag<E>();
+		static constexpr std::size_t MaxValue = (AutoFlag) ? GetEnumFlagMax<E>::max : IntegralLog2(GetEnumFlagMax<E>::max); //< index of the last bit
 
 		using BitField16 = std::conditional_t<(MaxValue >= 8), UInt16, UInt8>;
 		using BitField32 = std::conditional_t<(MaxValue >= 16), UInt32, BitField16>;
-- 
2.43.0


From 8d0e3590c8edacdf258205c1f831835241469911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:45 +0000
Subject: [PATCH 45/85] fix: std::hash of Flags can be used by unordered
 containers

---
 include/NazaraUtils/Flags.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/Flags.inl b/include/NazaraUtils/Flags.inl
index df62a9b..5b77e41 100644
--- a/include/NazaraUtils/Flags.inl
+++ b/include/NazaraUtils/Flags.inl
@@ -451,7 +451,7 @@ namespace std
 	template<typename E>
 	struct hash<Nz::Flags<E>>
 	{
-		std::size_t operator()(const Nz::Flags<E>& flags)
+		std::size_t operator()(const Nz::Flags<E>& flags) const
 		{
 			using UnderlyingType = typename Nz::Flags<E>::BitField;
 			using Hasher = hash<UnderlyingType>;
-- 
2.43.0


From 472e1dd3d53c1b5f41c11c0d0b76d0c88c7e2a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:45 +0000
Subject: [PATCH 46/85] fix: Flags iterators can be used with iterator_traits

---
 include/NazaraUtils/Flags.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/NazaraUtils/Flags.hpp b/include/NazaraUtils/Flags.hpp
index 33dc94f..6a686a3 100644
--- a/include/NazaraUtils/Flags.hpp
+++ b/include/NazaraUtils/Flags.hpp
@@ -112,6 +112,8 @@ namespace Nz
 			using iterator_category = std::input_iterator_tag;
 			using value_type = T;
 			using difference_type = std::ptrdiff_t;
+			using pointer = void;
+			using reference = value_type;
 
 			iterator(const iterator&) = default;
 			iterator(iterator&&) = default;
-- 
2.43.0


From 2ccd830ccad772cbc3596ebe3aa645a46535a761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:19 +0000
Subject: [PATCH 47/85] fix: AutoFlag value of scoped enumerations

---
 include/NazaraUtils/Flags.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/Flags.hpp b/include/NazaraUtils/Flags.hpp
index 6a686a3..c3a3490 100644
--- a/include/NazaraUtils/Flags.hpp
+++ b/include/NazaraUtils/Flags.hpp
@@ -33,7 +33,7 @@ namespace Nz
 	struct GetEnumAutoFlag : std::bool_constant<EnableAutoFlagForNzFlags(E{})> {};
 
 	template<typename E>
-	struct GetEnumAutoFlag<E, std::void_t<decltype(E::AutoFlag)>> : std::bool_constant<E::AutoFlag> {};
+	struct GetEnumAutoFlag<E, std::void_t<decltype(E::AutoFlag)>> : std::bool_constant<static_cast<bool>(E::AutoFlag)> {};
 
 	template<typename E, typename = void>
 	struct GetEnumFlagMax
-- 
2.43.0


From 581fc8de9c19a916ce0859758ae2d2acf33e1cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:14 +0000
Subject: [PATCH 48/85] fix: EnumArray key/value iterators additions and
 subtractions do not compile

---
 include/NazaraUtils/EnumArray.hpp | 4 ++--
 include/NazaraUtils/EnumArray.inl | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/NazaraUtils/EnumArray.hpp b/include/NazaraUtils/EnumArray.hpp
index 387959c..6ae3c4e 100644
--- a/include/NazaraUtils/EnumArray.hpp
+++ b/include/NazaraUtils/EnumArray.hpp
@@ -76,8 +76,8 @@ namespace Nz
 			constexpr EnumArrayKvIterator operator--(int) noexcept;
 			constexpr EnumArrayKvIterator& operator--() noexcept;
 
-			constexpr EnumArrayKvIterator operator+(difference_type n) noexcept;
-			constexpr EnumArrayKvIterator operator-(difference_type n) noexcept;
+			constexpr EnumArrayKvIterator operator+(difference_type n) const noexcept;
+			constexpr EnumArrayKvIterator operator-(difference_type n) const noexcept;
 
 			constexpr EnumArrayKvIterator operator+=(difference_type n) noexcept;
 			constexpr EnumArrayKvIterator operator-=(difference_type n) noexcept;
diff --git a/include/NazaraUtils/EnumArray.inl b/include/NazaraUtils/EnumArray.inl
index d7bad3e..db4df3a 100644
--- a/include/NazaraUtils/EnumArray.inl
+++ b/include/NazaraUtils/EnumArray.inl
@@ -96,15 +96,15 @@ namespace Nz
 	}
 
 	template<typename E, typename V, bool Const>
-	constexpr auto EnumArrayKvIterator<E, V, Const>::operator+(difference_type n) noexcept -> EnumArrayKvIterator
+	constexpr auto EnumArrayKvIterator<E, V, Const>::operator+(difference_type n) const noexcept -> EnumArrayKvIterator
 	{
-		return EnumArrayKvIterator(m_array, m_index + n);
+		return EnumArrayKvIterator(kv_tag{ m_array }, m_index + n);
 	}
 
 	template<typename E, typename V, bool Const>
-	constexpr auto EnumArrayKvIterator<E, V, Const>::operator-(difference_type n) noexcept -> EnumArrayKvIterator
+	constexpr auto EnumArrayKvIterator<E, V, Const>::operator-(difference_type n) const noexcept -> EnumArrayKvIterator
 	{
-		return EnumArrayKvIterator(m_array, m_index - n);
+		return EnumArrayKvIterator(kv_tag{ m_array }, m_index - n);
 	}
 
 	template<typename E, typename V, bool Const>
-- 
2.43.0


From 6e7e839a58b9b7375a197f76a859055a78820b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:14 +0000
Subject: [PATCH 49/85] fix: EnumArray key/value iterators compound assignments
 return the iterator itself

---
 include/NazaraUtils/EnumArray.hpp | 4 ++--
 include/NazaraUtils/EnumArray.inl | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/NazaraUtils/EnumArray.hpp b/include/NazaraUtils/EnumArray.hpp
index 6ae3c4e..5dc73ac 100644
--- a/include/NazaraUtils/EnumArray.hpp
+++ b/include/NazaraUtils/EnumArray.hpp
@@ -79,8 +79,8 @@ namespace Nz
 			constexpr EnumArrayKvIterator operator+(difference_type n) const noexcept;
 			constexpr EnumArrayKvIterator operator-(difference_type n) const noexcept;
 
-			constexpr EnumArrayKvIterator operator+=(difference_type n) noexcept;
-			constexpr EnumArrayKvIterator operator-=(difference_type n) noexcept;
+			constexpr EnumArrayKvIterator& operator+=(difference_type n) noexcept;
+			constexpr EnumArrayKvIterator& operator-=(difference_type n) noexcept;
 
 			constexpr value_type operator*() const noexcept;
 			constexpr value_type operator[](difference_type n) const noexcept;
diff --git a/include/NazaraUtils/EnumArray.inl b/include/NazaraUtils/EnumArray.inl
index db4df3a..c9638f0 100644
--- a/include/NazaraUtils/EnumArray.inl
+++ b/include/NazaraUtils/EnumArray.inl
@@ -108,14 +108,14 @@ namespace Nz
 	}
 
 	template<typename E, typename V, bool Const>
-	constexpr auto EnumArrayKvIterator<E, V, Const>::operator+=(difference_type n) noexcept -> EnumArrayKvIterator
+	constexpr auto EnumArrayKvIterator<E, V, Const>::operator+=(difference_type n) noexcept -> EnumArrayKvIterator&
 	{
 		m_index += n;
 		return *this;
 	}
 
 	template<typename E, typename V, bool Const>
-	constexpr auto EnumArrayKvIterator<E, V, Const>::operator-=(difference_type n) noexcept -> EnumArrayKvIterator
+	constexpr auto EnumArrayKvIterator<E, V, Const>::operator-=(difference_type n) noexcept -> EnumArrayKvIterator&
 	{
 		m_index -= n;
 		return *this;
-- 
2.43.0


From f3c3661a769e20f36af2faee66ada613bb892446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:14 +0000
Subject: [PATCH 50/85] fix: EnumArray key/value iterators can be used with
 iterator_traits and std::distance

---
 include/NazaraUtils/EnumArray.hpp | 3 +++
 include/NazaraUtils/EnumArray.inl | 7 +++++++
 2 files changed, 10 insertions(+)

diff --git a/include/NazaraUtils/EnumArray.hpp b/include/NazaraUtils/EnumArray.hpp
index 5dc73ac..de336dd 100644
--- a/include/NazaraUtils/EnumArray.hpp
+++ b/include/NazaraUtils/EnumArray.hpp
@@ -62,6 +62,8 @@ namespace Nz
 			using iterator_category = std::random_access_iterator_tag;
 			using value_type = std::pair<E, std::conditional_t<Const, const V&, V&>>;
 			using difference_type = typename Array::difference_type;
+			using pointer = void;
+			using reference = value_type;
 
 			constexpr EnumArrayKvIterator(kv_tag arrayTag, difference_type index);
 			EnumArrayKvIterator(const EnumArrayKvIterator&) = default;
@@ -78,6 +80,7 @@ namespace Nz
 
 			constexpr EnumArrayKvIterator operator+(difference_type n) const noexcept;
 			constexpr EnumArrayKvIterator operator-(difference_type n) const noexcept;
+			constexpr difference_type operator-(const EnumArrayKvIterator& rhs) const noexcept;
 
 			constexpr EnumArrayKvIterator& operator+=(difference_type n) noexcept;
 			constexpr EnumArrayKvIterator& operator-=(difference_type n) noexcept;
diff --git a/include/NazaraUtils/EnumArray.inl b/include/NazaraUtils/EnumArray.inl
index c9638f0..bcaf2f0 100644
--- a/include/NazaraUtils/EnumArray.inl
+++ b/include/NazaraUtils/EnumArray.inl
@@ -107,6 +107,13 @@ namespace Nz
 		return EnumArrayKvIterator(kv_tag{ m_array }, m_index - n);
 	}
 
+	template<typename E, typename V, bool Const>
+	constexpr auto EnumArrayKvIterator<E, V, Const>::operator-(const EnumArrayKvIterator& rhs) const noexcept -> difference_type
+	{
+		assert(m_array == rhs.m_array);
+		return m_index - rhs.m_index;
+	}
+
 	template<typename E, typename V, bool Const>
 	constexpr auto EnumArrayKvIterator<E, V, Const>::operator+=(difference_type n) noexcept -> EnumArrayKvIterator&
 	{
-- 
2.43.0


From 5fc56d80cdc29eb57079b10d98cb2c6467215080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:43 +0000
Subject: [PATCH 51/85] fix: Result<void, E> built from Err(lvalue) copies the
 error instead of moving from the lvalue

---
 include/NazaraUtils/Result.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/Result.inl b/include/NazaraUtils/Result.inl
index 92dae39..1558b21 100644
--- a/include/NazaraUtils/Result.inl
+++ b/include/NazaraUtils/Result.inl
@@ -278,7 +278,7 @@ namespace Nz
 	template<typename E>
 	template<typename T>
 	constexpr Result<void, E>::Result(ResultError<T> error) :
-	m_error(std::move(error.value))
+	m_error(std::forward<T>(error.value))
 	{
 	}
 
-- 
2.43.0


From 15ff064d04759be7d1d9c108a4f43d61fb8daf06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:43 +0000
Subject: [PATCH 52/85] fix: Result conversions do not require the value type
 to be default constructible

---
 include/NazaraUtils/Result.inl | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/include/NazaraUtils/Result.inl b/include/NazaraUtils/Result.inl
index 1558b21..43a4903 100644
--- a/include/NazaraUtils/Result.inl
+++ b/include/NazaraUtils/Result.inl
@@ -69,22 +69,16 @@ namespace Nz
 
 	template<typename V, typename E>
 	template<typename V2, typename E2, typename>
-	constexpr Result<V, E>::Result(const Result<V2, E2>& result)
+	constexpr Result<V, E>::Result(const Result<V2, E2>& result) :
+	m_value((result.IsOk()) ? std::variant<V, E>(std::in_place_index_t<ValueIndex>{}, result.GetValue()) : std::variant<V, E>(std::in_place_index_t<ErrorIndex>{}, result.GetError()))
 	{
-		if (result.IsOk())
-			m_value.template emplace<ValueIndex>(result.GetValue());
-		else
-			m_value.template emplace<ErrorIndex>(result.GetError());
 	}
 
 	template<typename V, typename E>
 	template<typename V2, typename E2, typename>
-	constexpr Result<V, E>::Result(Result<V2, E2>&& result)
+	constexpr Result<V, E>::Result(Result<V2, E2>&& result) :
+	m_value((result.IsOk()) ? std::variant<V, E>(std::in_place_index_t<ValueIndex>{}, std::move(result).GetValue()) : std::variant<V, E>(std::in_place_index_t<ErrorIndex>{}, std::move(result).GetError()))
 	{
-		if (result.IsOk())
-			m_value.template emplace<ValueIndex>(std::move(result).GetValue());
-		else
-			m_value.template emplace<ErrorIndex>(std::move(result).GetError());
 	}
 
 	template<typename V, typename E>
-- 
2.43.0


From b672a43eece31c10b6e0f8262e809616cb3f899d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:43 +0000
Subject: [PATCH 53/85] fix: Result::Map is not noexcept when copying the error
 may throw

---
 include/NazaraUtils/Result.hpp | 8 ++++----
 include/NazaraUtils/Result.inl | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/NazaraUtils/Result.hpp b/include/NazaraUtils/Result.hpp
index 44b14f8..9b10696 100644
--- a/include/NazaraUtils/Result.hpp
+++ b/include/NazaraUtils/Result.hpp
@@ -92,8 +92,8 @@ namespace Nz
 			constexpr bool IsErr() const noexcept;
 			constexpr bool IsOk() const noexcept;
 
-			template<typename F> Result<std::invoke_result_t<F, const V&>, E> constexpr Map(F&& functor) const& noexcept(std::is_nothrow_invocable_v<F, const V&>);
-			template<typename F> Result<std::invoke_result_t<F, V&&>, E> constexpr Map(F&& functor) && noexcept(std::is_nothrow_invocable_v<F, V&&>);
+			template<typename F> Result<std::invoke_result_t<F, const V&>, E> constexpr Map(F&& functor) const& noexcept(std::is_nothrow_invocable_v<F, const V&> && std::is_nothrow_copy_constructible_v<E>);
+			template<typename F> Result<std::invoke_result_t<F, V&&>, E> constexpr Map(F&& functor) && noexcept(std::is_nothrow_invocable_v<F, V&&> && std::is_nothrow_move_constructible_v<E>);
 
 			constexpr explicit operator bool() const noexcept;
 
@@ -146,8 +146,8 @@ namespace Nz
 			constexpr bool IsErr() const noexcept;
 			constexpr bool IsOk() const noexcept;
 
-			template<typename F> Result<std::invoke_result_t<F>, E> constexpr Map(F&& functor) const& noexcept(std::is_nothrow_invocable_v<F>);
-			template<typename F> Result<std::invoke_result_t<F>, E> constexpr Map(F&& functor) && noexcept(std::is_nothrow_invocable_v<F>);
+			template<typename F> Result<std::invoke_result_t<F>, E> constexpr Map(F&& functor) const& noexcept(std::is_nothrow_invocable_v<F> && std::is_nothrow_copy_constructible_v<E>);
+			template<typename F> Result<std::invoke_result_t<F>, E> constexpr Map(F&& functor) && noexcept(std::is_nothrow_invocable_v<F> && std::is_nothrow_move_constructible_v<E>);
 
 			constexpr explicit operator bool() const noexcept;
 
diff --git a/include/NazaraUtils/Result.inl b/include/NazaraUtils/Result.inl
index 43a4903..3944229 100644
--- a/include/NazaraUtils/Result.inl
+++ b/include/NazaraUtils/Result.inl
@@ -173,7 +173,7 @@ namespace Nz
 
 	template<typename V, typename E>
 	template<typename F>
-	constexpr Result<std::invoke_result_t<F, const V&>, E> Result<V, E>::Map(F&& functor) const& noexcept(std::is_nothrow_invocable_v<F, const V&>)
+	constexpr Result<std::invoke_result_t<F, const V&>, E> Result<V, E>::Map(F&& functor) const& noexcept(std::is_nothrow_invocable_v<F, const V&> && std::is_nothrow_copy_constructible_v<E>)
 	{
 		using MappedVal = std::invoke_result_t<F, const V&>;
 		using MappedResult = Result<MappedVal, E>;
@@ -194,7 +194,7 @@ namespace Nz
 
 	template<typename V, typename E>
 	template<typename F>
-	constexpr Result<std::invoke_result_t<F, V&&>, E> Result<V, E>::Map(F&& functor) && noexcept(std::is_nothrow_invocable_v<F, V&&>)
+	constexpr Result<std::invoke_result_t<F, V&&>, E> Result<V, E>::Map(F&& functor) && noexcept(std::is_nothrow_invocable_v<F, V&&> && std::is_nothrow_move_constructible_v<E>)
 	{
 		using MappedVal = std::invoke_result_t<F, V&&>;
 		using MappedResult = Result<MappedVal, E>;
@@ -353,7 +353,7 @@ namespace Nz
 	
 	template<typename E>
 	template<typename F>
-	constexpr Result<std::invoke_result_t<F>, E> Result<void, E>::Map(F&& functor) const& noexcept(std::is_nothrow_invocable_v<F>)
+	constexpr Result<std::invoke_result_t<F>, E> Result<void, E>::Map(F&& functor) const& noexcept(std::is_nothrow_invocable_v<F> && std::is_nothrow_copy_constructible_v<E>)
 	{
 		using MappedVal = std::invoke_result_t<F>;
 		using MappedResult = Result<MappedVal, E>;
@@ -374,7 +374,7 @@ namespace Nz
 
 	template<typename E>
 	template<typename F>
-	constexpr Result<std::invoke_result_t<F>, E> Result<void, E>::Map(F&& functor) && noexcept(std::is_nothrow_invocable_v<F>)
+	constexpr Result<std::invoke_result_t<F>, E> Result<void, E>::Map(F&& functor) && noexcept(std::is_nothrow_invocable_v<F> && std::is_nothrow_move_constructible_v<E>)
 	{
 		using MappedVal = std::invoke_result_t<F>;
 		using MappedResult = Result<MappedVal, E>;
-- 
2.43.0


From 2338bbe20d0008b5172f243fe4a362cb6e33b41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:43 +0000
Subject: [PATCH 54/85] fix: in-place PrivateImpl copy assignment keeps a valid
 object on self-assignment and when the copy throws

---
 include/NazaraUtils/PrivateImpl.inl | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/PrivateImpl.inl b/include/NazaraUtils/PrivateImpl.inl
index 849645c..7b421cc 100644
--- a/include/NazaraUtils/PrivateImpl.inl
+++ b/include/NazaraUtils/PrivateImpl.inl
@@ -91,8 +91,14 @@ namespace Nz
 	template<typename T, std::size_t BufferSize, std::size_t Alignment>
 	auto PrivateImpl<T, BufferSize, Alignment>::operator=(const PrivateImpl& pimpl) -> PrivateImpl&
 	{
-		PlacementDestroy(Get());
-		PlacementNew(Get(), *pimpl.Get());
+		if constexpr (std::is_copy_assignable_v<T>)
+			*Get() = *pimpl.Get();
+		else
+		{
+			PrivateImpl copy(pimpl); //< may throw
+			PlacementDestroy(Get());
+			PlacementNew(Get(), std::move(*copy.Get()));
+		}
 
 		return *this;
 	}
-- 
2.43.0


From 81f71054b7c8fb3ac5d6e6c7cd4497bcda2b71d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:43 +0000
Subject: [PATCH 55/85] fix: in-place PrivateImpl self move assignment

---
 include/NazaraUtils/PrivateImpl.inl | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/PrivateImpl.inl b/include/NazaraUtils/PrivateImpl.inl
index 7b421cc..ffab0dc 100644
--- a/include/NazaraUtils/PrivateImpl.inl
+++ b/include/NazaraUtils/PrivateImpl.inl
@@ -106,8 +106,11 @@ namespace Nz
 	template<typename T, std::size_t BufferSize, std::size_t Alignment>
 	auto PrivateImpl<T, BufferSize, Alignment>::operator=(PrivateImpl&& pimpl) noexcept -> PrivateImpl&
 	{
-		PlacementDestroy(Get());
-		PlacementNew(Get(), std::move(*pimpl.Get()));
+		if (this != &pimpl)
+		{
+			PlacementDestroy(Get());
+			PlacementNew(Get(), std::move(*pimpl.Get()));
+		}
 
 		return *this;
 	}
-- 
2.43.0


From 7b1a0d607121b430fe5d89db11a31953606d5652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:43 +0000
Subject: [PATCH 56/85] fix: PrivateImpl copies of an empty object

---
 include/NazaraUtils/PrivateImpl.inl | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/PrivateImpl.inl b/include/NazaraUtils/PrivateImpl.inl
index ffab0dc..22b9fbe 100644
--- a/include/NazaraUtils/PrivateImpl.inl
+++ b/include/NazaraUtils/PrivateImpl.inl
@@ -140,7 +140,8 @@ namespace Nz
 	PrivateImpl<T, 0, Alignment>::PrivateImpl(const PrivateImpl& pimpl)
 	{
 		static_assert(IsComplete_v<T>, "PrivateImpl copy constructor has to be called in the source file");
-		m_ptr = new T(*pimpl);
+		if (pimpl)
+			m_ptr = new T(*pimpl);
 	}
 
 	template<typename T, std::size_t Alignment>
@@ -234,7 +235,9 @@ namespace Nz
 	{
 		static_assert(IsComplete_v<T>, "PrivateImpl copy assignation operator has to be called in the source file");
 
-		if constexpr (std::is_copy_assignable_v<T>)
+		if (!pimpl)
+			Reset();
+		else if constexpr (std::is_copy_assignable_v<T>)
 		{
 			if (m_ptr)
 				*m_ptr = *pimpl;
-- 
2.43.0


From 0c458c40a0680718e355592d2790ed4003681b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:43 +0000
Subject: [PATCH 57/85] fix: PrivateImpl copy assignment of non-assignable
 types keeps a valid object on self-assignment and when the copy throws

---
 include/NazaraUtils/PrivateImpl.inl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/NazaraUtils/PrivateImpl.inl b/include/NazaraUtils/PrivateImpl.inl
index 22b9fbe..fad5cde 100644
--- a/include/NazaraUtils/PrivateImpl.inl
+++ b/include/NazaraUtils/PrivateImpl.inl
@@ -246,8 +246,9 @@ namespace Nz
 		}
 		else
 		{
+			T* newPtr = new T(*pimpl);
 			delete m_ptr;
-			m_ptr = new T(*pimpl);
+			m_ptr = newPtr;
 		}
 
 		return *this;
-- 
2.43.0


From e0c5ed947138b1d3031686b676c094c75c39cb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:43 +0000
Subject: [PATCH 58/85] fix: a moved CallOnExit no longer calls its (moved)
 function

---
 include/NazaraUtils/CallOnExit.hpp |  2 +-
 include/NazaraUtils/CallOnExit.inl | 18 ++++++++++++++++++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/include/NazaraUtils/CallOnExit.hpp b/include/NazaraUtils/CallOnExit.hpp
index d35a314..aed3e51 100644
--- a/include/NazaraUtils/CallOnExit.hpp
+++ b/include/NazaraUtils/CallOnExit.hpp
@@ -28,7 +28,7 @@ namespace Nz
 			void Reset();
 
 			CallOnExit& operator=(const CallOnExit&) = delete;
-			CallOnExit& operator=(CallOnExit&&) = default;
+			CallOnExit& operator=(CallOnExit&& callOnExit);
 
 		private:
 			std::optional<F> m_functor;
diff --git a/include/NazaraUtils/CallOnExit.inl b/include/NazaraUtils/CallOnExit.inl
index f8f60a3..2126441 100644
--- a/include/NazaraUtils/CallOnExit.inl
+++ b/include/NazaraUtils/CallOnExit.inl
@@ -55,5 +55,23 @@ namespace Nz
 	{
 		m_functor.reset();
 	}
+
+	/*!
+	* \brief Takes over the function of another object, which no longer calls it
+	* \return A reference to this
+	*
+	* \param callOnExit Object to take the function from
+	*/
+	template<typename F>
+	CallOnExit<F>& CallOnExit<F>::operator=(CallOnExit&& callOnExit)
+	{
+		if (this != &callOnExit)
+		{
+			m_functor = std::move(callOnExit.m_functor);
+			callOnExit.m_functor.reset();
+		}
+
+		return *this;
+	}
 }
 
-- 
2.43.0


From dbbd51ffd091cdc33ab0469ef2d83648e475acc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:43 +0000
Subject: [PATCH 59/85] fix: CallOnExit::CallAndReset calls its function once
 if it throws or resets its CallOnExit

---
 include/NazaraUtils/CallOnExit.inl | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/NazaraUtils/CallOnExit.inl b/include/NazaraUtils/CallOnExit.inl
index 2126441..af9b37a 100644
--- a/include/NazaraUtils/CallOnExit.inl
+++ b/include/NazaraUtils/CallOnExit.inl
@@ -39,10 +39,11 @@ namespace Nz
 	template<typename F>
 	void CallOnExit<F>::CallAndReset()
 	{
-		if (m_functor)
-			(*m_functor)();
-
+		std::optional<F> functor = std::move(m_functor);
 		m_functor.reset();
+
+		if (functor)
+			(*functor)();
 	}
 
 	/*!
-- 
2.43.0


From 9b8db856ae3f4711df82ad3beadeac0ca965c3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:43 +0000
Subject: [PATCH 60/85] fix: assigning a lvalue to a MovableValue no longer
 moves it

---
 include/NazaraUtils/MovableValue.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/MovableValue.inl b/include/NazaraUtils/MovableValue.inl
index 1093929..c84ec2f 100644
--- a/include/NazaraUtils/MovableValue.inl
+++ b/include/NazaraUtils/MovableValue.inl
@@ -66,7 +66,7 @@ namespace Nz
 	template<typename U, typename>
 	constexpr MovableLiteral<T, DefaultValue>& MovableLiteral<T, DefaultValue>::operator=(U&& value)
 	{
-		m_value = std::move(value);
+		m_value = std::forward<U>(value);
 		return *this;
 	}
 
@@ -132,7 +132,7 @@ namespace Nz
 	template<typename U, typename>
 	constexpr MovableValue<T>& MovableValue<T>::operator=(U&& value)
 	{
-		m_value = std::move(value);
+		m_value = std::forward<U>(value);
 		return *this;
 	}
 
-- 
2.43.0


From 1052efadb0f41ddf032efda96c2addafdbfe519e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:43 +0000
Subject: [PATCH 61/85] fix: FunctionRef to const functors

---
 include/NazaraUtils/FunctionRef.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/FunctionRef.inl b/include/NazaraUtils/FunctionRef.inl
index 13bdb6f..56ef5da 100644
--- a/include/NazaraUtils/FunctionRef.inl
+++ b/include/NazaraUtils/FunctionRef.inl
@@ -18,7 +18,7 @@ namespace Nz
 	template<typename F, typename>
 	FunctionRef<Ret(Args...)>::FunctionRef(F&& f) noexcept
 	{
-		m_functor = reinterpret_cast<void*>(std::addressof(f));
+		m_functor = (void*) std::addressof(f); //< may be const, may be a function
 		m_callback = [](void* functor, Args... args) -> Ret
 		{
 			return std::invoke(*reinterpret_cast<decltype(std::addressof(f))>(functor), std::forward<Args>(args)...);
-- 
2.43.0


From f14442c86d6ff77a29b19b849a6733115bba3d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:43 +0000
Subject: [PATCH 62/85] fix: FunctionRef<void(...)> to functors returning a
 value

---
 include/NazaraUtils/FunctionRef.inl | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/NazaraUtils/FunctionRef.inl b/include/NazaraUtils/FunctionRef.inl
index 56ef5da..66ffe69 100644
--- a/include/NazaraUtils/FunctionRef.inl
+++ b/include/NazaraUtils/FunctionRef.inl
@@ -21,7 +21,10 @@ namespace Nz
 		m_functor = (void*) std::addressof(f); //< may be const, may be a function
 		m_callback = [](void* functor, Args... args) -> Ret
 		{
-			return std::invoke(*reinterpret_cast<decltype(std::addressof(f))>(functor), std::forward<Args>(args)...);
+			if constexpr (std::is_void_v<Ret>)
+				std::invoke(*reinterpret_cast<decltype(std::addressof(f))>(functor), std::forward<Args>(args)...);
+			else
+				return std::invoke(*reinterpret_cast<decltype(std::addressof(f))>(functor), std::forward<Args>(args)...);
 		};
 	}
 	
-- 
2.43.0


From d8ff483d4a919749d51235c530ec26db0e809ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:17 +0000
Subject: [PATCH 63/85] fix: SparsePtr offsets are no longer computed with
 32bits integers (overflows, unsigned counts with negative strides)

---
 include/NazaraUtils/SparsePtr.inl | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/NazaraUtils/SparsePtr.inl b/include/NazaraUtils/SparsePtr.inl
index e8d3d01..0111ea6 100644
--- a/include/NazaraUtils/SparsePtr.inl
+++ b/include/NazaraUtils/SparsePtr.inl
@@ -250,7 +250,7 @@ namespace Nz
 	{
 		static_assert(std::is_integral_v<U>, "index must be an integral type");
 
-		return *reinterpret_cast<T*>(m_ptr + index * m_stride);
+		return *reinterpret_cast<T*>(m_ptr + static_cast<std::ptrdiff_t>(index) * m_stride);
 	}
 
 	/*!
@@ -266,7 +266,7 @@ namespace Nz
 	{
 		static_assert(std::is_integral_v<U>, "count must be an integral type");
 
-		return SparsePtr(m_ptr + count * m_stride, m_stride);
+		return SparsePtr(m_ptr + static_cast<std::ptrdiff_t>(count) * m_stride, m_stride);
 	}
 
 	/*!
@@ -282,7 +282,7 @@ namespace Nz
 	{
 		static_assert(std::is_integral_v<U>, "count must be an integral type");
 
-		return SparsePtr(m_ptr - count * m_stride, m_stride);
+		return SparsePtr(m_ptr - static_cast<std::ptrdiff_t>(count) * m_stride, m_stride);
 	}
 
 	/*!
@@ -311,7 +311,7 @@ namespace Nz
 	{
 		static_assert(std::is_integral_v<U>, "count must be an integral type");
 
-		m_ptr += count * m_stride;
+		m_ptr += static_cast<std::ptrdiff_t>(count) * m_stride;
 		return *this;
 	}
 
@@ -321,7 +321,7 @@ namespace Nz
 	{
 		static_assert(std::is_integral_v<U>, "count must be an integral type");
 
-		m_ptr -= count * m_stride;
+		m_ptr -= static_cast<std::ptrdiff_t>(count) * m_stride;
 		return *this;
 	}
 
-- 
2.43.0


From 1113b8e09561566df12031ffc3a98be418dd93c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:17 +0000
Subject: [PATCH 64/85] fix: iterator_traits of SparsePtr to mutable elements

---
 include/NazaraUtils/SparsePtr.inl | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/NazaraUtils/SparsePtr.inl b/include/NazaraUtils/SparsePtr.inl
index 0111ea6..a17c9fd 100644
--- a/include/NazaraUtils/SparsePtr.inl
+++ b/include/NazaraUtils/SparsePtr.inl
@@ -472,9 +472,9 @@ namespace std
 	{
 		using difference_type = ptrdiff_t;
 		using iterator_category = random_access_iterator_tag;
-		using reference = const T&;
-		using pointer = const T*;
-		using value_type = T;
+		using reference = T&;
+		using pointer = T*;
+		using value_type = remove_cv_t<T>;
 	};
 }
 
-- 
2.43.0


From a2ad454f58ed279e3db5ed4ef2dfd6872bf546a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:17 +0000
Subject: [PATCH 65/85] fix: TypeName of types with a long name

---
 include/NazaraUtils/TypeName.inl | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/NazaraUtils/TypeName.inl b/include/NazaraUtils/TypeName.inl
index 5081c25..f6c2299 100644
--- a/include/NazaraUtils/TypeName.inl
+++ b/include/NazaraUtils/TypeName.inl
@@ -12,16 +12,19 @@ constexpr std::string_view NzDetailTypeName()
 
 #ifdef NAZARA_COMPILER_MSVC
 	constexpr std::string_view prefix = "NzDetailTypeName<"sv;
-	constexpr std::string_view suffixes = ">"sv;
+	constexpr std::string_view suffix = ">"sv;
+#elif defined(NAZARA_COMPILER_GCC)
+	constexpr std::string_view prefix = "T = "sv;
+	constexpr std::string_view suffix = "; std::string_view = "sv;
 #else
 	constexpr std::string_view prefix = "T = "sv;
-	constexpr std::string_view suffixes = ";]"sv;
+	constexpr std::string_view suffix = "]"sv;
 #endif
 
 	constexpr std::size_t b = prettyFuncName.find(prefix);
 	static_assert(b != prettyFuncName.npos);
 
-	constexpr std::size_t e = prettyFuncName.substr(b).find_last_of(suffixes, b) + b;
+	constexpr std::size_t e = prettyFuncName.rfind(suffix);
 	static_assert(e != prettyFuncName.npos);
 
 	std::size_t p = b + prefix.size();
-- 
2.43.0


From 887a7093be649cb468dbbc68f2f696b3e1f12eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:17 +0000
Subject: [PATCH 66/85] fix: FunctionTraits of noexcept functions

---
 include/NazaraUtils/FunctionTraits.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/NazaraUtils/FunctionTraits.hpp b/include/NazaraUtils/FunctionTraits.hpp
index e5402ec..367c39f 100644
--- a/include/NazaraUtils/FunctionTraits.hpp
+++ b/include/NazaraUtils/FunctionTraits.hpp
@@ -39,6 +39,9 @@ namespace Nz
 		using ArgType = typename Arg<I>::type;
 	};
 
+	template<typename Ret, typename... Args>
+	struct FunctionTraits<Ret(Args...) noexcept> : FunctionTraits<Ret(Args...)> {};
+
 	template<typename Ret, typename... Args>
 	struct FunctionTraits<Ret(*)(Args...)> : FunctionTraits<Ret(Args...)> {};
 
-- 
2.43.0


From 5226bc2ec47497c9e90fe19d1e01692a089e03c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:17 +0000
Subject: [PATCH 67/85] fix: CountOf of string literals was declared but not
 defined

---
 include/NazaraUtils/Algorithm.inl | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/NazaraUtils/Algorithm.inl b/include/NazaraUtils/Algorithm.inl
index 7430b47..3b30991 100644
--- a/include/NazaraUtils/Algorithm.inl
+++ b/include/NazaraUtils/Algorithm.inl
@@ -145,6 +145,19 @@ namespace Nz
 		return c.size();
 	}
 
+	/*!
+	* \ingroup utils
+	* \brief Returns the number of characters in a string literal
+	* \return The number of characters (excluding the null-terminating one)
+	*
+	* \see CountOf
+	*/
+	template<std::size_t N>
+	[[nodiscard]] constexpr std::size_t CountOf(const char(&)[N]) noexcept
+	{
+		return N - 1;
+	}
+
 	template<typename P, typename T>
 	[[nodiscard]] NAZARA_CONSTEXPR_BITCAST P IntegerToPointer(T ptrAsInt) noexcept
 	{
-- 
2.43.0


From 5f7732a2cee08e7f6bc1b1a3c6d5b6840efe54bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:49 +0000
Subject: [PATCH 68/85] fix: SafeCast of signed integers to smaller unsigned
 integers is checked

---
 include/NazaraUtils/Algorithm.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/Algorithm.inl b/include/NazaraUtils/Algorithm.inl
index 3b30991..89dd79d 100644
--- a/include/NazaraUtils/Algorithm.inl
+++ b/include/NazaraUtils/Algorithm.inl
@@ -227,7 +227,7 @@ NAZARA_WARNING_MSVC_DISABLE(4702)
 			else if constexpr (std::is_integral_v<From>)
 			{
 				// Type capable of storing the biggest value between the two types
-				using MaxValueType = std::conditional_t<((!std::is_signed_v<From> && std::is_signed_v<To>) || (std::is_signed_v<From> == std::is_signed_v<To> && sizeof(From) > sizeof(To))), From, To>;
+				using MaxValueType = std::conditional_t<((!std::is_signed_v<From> && std::is_signed_v<To>) || sizeof(From) > sizeof(To)), From, To>;
 				// Type capable of storing the smallest value between the two types
 				using MinValueType = std::conditional_t<((std::is_signed_v<From> && !std::is_signed_v<To>) || (std::is_signed_v<From> == std::is_signed_v<To> && sizeof(From) > sizeof(To))), From, To>;
 
-- 
2.43.0


From d407683992368d183e7d45fbeba432aa49a85b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:49 +0000
Subject: [PATCH 69/85] fix: SafeCast of floating-point values around and past
 the limits of the integer type

---
 include/NazaraUtils/Algorithm.inl | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/Algorithm.inl b/include/NazaraUtils/Algorithm.inl
index 89dd79d..d6b5b04 100644
--- a/include/NazaraUtils/Algorithm.inl
+++ b/include/NazaraUtils/Algorithm.inl
@@ -220,9 +220,10 @@ NAZARA_WARNING_MSVC_DISABLE(4702)
 			}
 			else if constexpr (std::is_floating_point_v<From>)
 			{
-				NazaraAssert(static_cast<long long>(value) == value);
-				NazaraAssert(value <= static_cast<From>(std::numeric_limits<To>::max()));
+				// max() may not be representable by a floating-point type (unlike max() + 1, a power of two)
+				NazaraAssert(value < static_cast<From>(std::numeric_limits<To>::max() / 2 + 1) * 2);
 				NazaraAssert(value >= static_cast<From>(std::numeric_limits<To>::lowest()));
+				NazaraAssert(static_cast<From>(static_cast<To>(value)) == value);
 			}
 			else if constexpr (std::is_integral_v<From>)
 			{
-- 
2.43.0


From 00c69387a4d9bf7b892fe8ab507f2810280764c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:49 +0000
Subject: [PATCH 70/85] fix: SafeCast of lvalues is checked

---
 include/NazaraUtils/Algorithm.inl | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/include/NazaraUtils/Algorithm.inl b/include/NazaraUtils/Algorithm.inl
index d6b5b04..6d42deb 100644
--- a/include/NazaraUtils/Algorithm.inl
+++ b/include/NazaraUtils/Algorithm.inl
@@ -212,25 +212,28 @@ NAZARA_WARNING_MSVC_DISABLE(4702)
 	{
 #if defined(NAZARA_DEBUG) && !defined(NDEBUG)
 
+		// From is deduced as a reference when casting a lvalue
+		using FromType = RemoveCvRef_t<From>;
+
 		if constexpr (std::is_integral_v<To>)
 		{
-			if constexpr (std::is_enum_v<From>)
+			if constexpr (std::is_enum_v<FromType>)
 			{
-				return SafeCast<To>(static_cast<std::underlying_type_t<From>>(value));
+				return SafeCast<To>(static_cast<std::underlying_type_t<FromType>>(value));
 			}
-			else if constexpr (std::is_floating_point_v<From>)
+			else if constexpr (std::is_floating_point_v<FromType>)
 			{
 				// max() may not be representable by a floating-point type (unlike max() + 1, a power of two)
-				NazaraAssert(value < static_cast<From>(std::numeric_limits<To>::max() / 2 + 1) * 2);
-				NazaraAssert(value >= static_cast<From>(std::numeric_limits<To>::lowest()));
-				NazaraAssert(static_cast<From>(static_cast<To>(value)) == value);
+				NazaraAssert(value < static_cast<FromType>(std::numeric_limits<To>::max() / 2 + 1) * 2);
+				NazaraAssert(value >= static_cast<FromType>(std::numeric_limits<To>::lowest()));
+				NazaraAssert(static_cast<FromType>(static_cast<To>(value)) == value);
 			}
-			else if constexpr (std::is_integral_v<From>)
+			else if constexpr (std::is_integral_v<FromType>)
 			{
 				// Type capable of storing the biggest value between the two types
-				using MaxValueType = std::conditional_t<((!std::is_signed_v<From> && std::is_signed_v<To>) || sizeof(From) > sizeof(To)), From, To>;
+				using MaxValueType = std::conditional_t<((!std::is_signed_v<FromType> && std::is_signed_v<To>) || sizeof(FromType) > sizeof(To)), FromType, To>;
 				// Type capable of storing the smallest value between the two types
-				using MinValueType = std::conditional_t<((std::is_signed_v<From> && !std::is_signed_v<To>) || (std::is_signed_v<From> == std::is_signed_v<To> && sizeof(From) > sizeof(To))), From, To>;
+				using MinValueType = std::conditional_t<((std::is_signed_v<FromType> && !std::is_signed_v<To>) || (std::is_signed_v<FromType> == std::is_signed_v<To> && sizeof(FromType) > sizeof(To))), FromType, To>;
 
 				if constexpr (!std::is_signed_v<To>)
 					NazaraAssert(value >= 0);
@@ -245,12 +248,12 @@ NAZARA_WARNING_MSVC_DISABLE(4702)
 		}
 		else if constexpr (std::is_floating_point_v<To>)
 		{
-			if constexpr (std::is_floating_point_v<From>)
+			if constexpr (std::is_floating_point_v<FromType>)
 			{
 				// Type capable of storing the biggest value between the two types
-				using MaxValueType = std::conditional_t<(sizeof(From) > sizeof(To)), From, To>;
+				using MaxValueType = std::conditional_t<(sizeof(FromType) > sizeof(To)), FromType, To>;
 				// Type capable of storing the smallest value between the two types
-				using MinValueType = std::conditional_t<(sizeof(From) > sizeof(To)), From, To>;
+				using MinValueType = std::conditional_t<(sizeof(FromType) > sizeof(To)), FromType, To>;
 
 				NazaraAssert(static_cast<MaxValueType>(value) <= static_cast<MaxValueType>(std::numeric_limits<To>::max()));
 				NazaraAssert(static_cast<MinValueType>(value) >= static_cast<MinValueType>(std::numeric_limits<To>::lowest()));
-- 
2.43.0


From 4431e119152e30cff9a13d6e915fb359584d3374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:15 +0000
Subject: [PATCH 71/85] fix: SafeCast of pointers and references to polymorphic
 types is checked

---
 include/NazaraUtils/Algorithm.inl | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/NazaraUtils/Algorithm.inl b/include/NazaraUtils/Algorithm.inl
index 6d42deb..2982295 100644
--- a/include/NazaraUtils/Algorithm.inl
+++ b/include/NazaraUtils/Algorithm.inl
@@ -266,7 +266,7 @@ NAZARA_WARNING_MSVC_DISABLE(4702)
 				using BaseFromType = std::remove_reference_t<std::remove_cv_t<From>>;
 				using BaseToType = std::remove_reference_t<std::remove_cv_t<To>>;
 
-				if constexpr (!std::is_same_v<BaseFromType, BaseToType> && std::is_base_of_v<From, To> && std::is_polymorphic_v<From>)
+				if constexpr (std::conjunction_v<std::negation<std::is_same<std::remove_cv_t<BaseFromType>, std::remove_cv_t<BaseToType>>>, std::is_base_of<BaseFromType, BaseToType>, std::is_polymorphic<BaseFromType>>)
 				{
 					using ToPtr = std::add_pointer_t<std::remove_reference_t<To>>;
 					NazaraAssert(dynamic_cast<ToPtr>(&value) != nullptr);
@@ -275,12 +275,12 @@ NAZARA_WARNING_MSVC_DISABLE(4702)
 		}
 		else if constexpr (std::is_pointer_v<To>)
 		{
-			if constexpr (std::is_pointer_v<From>)
+			if constexpr (std::is_pointer_v<FromType>)
 			{
-				using BaseFromType = std::remove_pointer_t<std::remove_cv_t<From>>;
+				using BaseFromType = std::remove_pointer_t<FromType>;
 				using BaseToType = std::remove_pointer_t<std::remove_cv_t<To>>;
 
-				if constexpr (!std::is_same_v<BaseFromType, BaseToType> && std::is_base_of_v<From, To> && std::is_polymorphic_v<From>)
+				if constexpr (std::conjunction_v<std::negation<std::is_same<std::remove_cv_t<BaseFromType>, std::remove_cv_t<BaseToType>>>, std::is_base_of<BaseFromType, BaseToType>, std::is_polymorphic<BaseFromType>>)
 				{
 					NazaraAssert(!value || dynamic_cast<To>(value) != nullptr);
 				}
-- 
2.43.0


From 58f296de6151333ae994557ba9125cc9d06a312b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:10 +0000
Subject: [PATCH 72/85] fix: SparsePtr conversion to a base class which is not
 at the start of the object

---
 include/NazaraUtils/SparsePtr.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/SparsePtr.inl b/include/NazaraUtils/SparsePtr.inl
index a17c9fd..a3653d2 100644
--- a/include/NazaraUtils/SparsePtr.inl
+++ b/include/NazaraUtils/SparsePtr.inl
@@ -165,7 +165,7 @@ namespace Nz
 	{
 		static_assert(std::is_convertible<U*, T*>::value, "Source type pointer cannot be implicitly converted to target type pointer");
 
-		SetPtr(static_cast<T*>(ptr.GetPtr()));
+		SetPtr(static_cast<T*>(static_cast<U*>(ptr.GetPtr())));
 		SetStride(ptr.GetStride());
 	}
 
-- 
2.43.0


From 42ecd3afaae088753b3618b0bee0a56b39391a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:35 +0000
Subject: [PATCH 73/85] fix: mathematical constants of long double are not
 truncated to double

---
 include/NazaraUtils/Constants.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/NazaraUtils/Constants.hpp b/include/NazaraUtils/Constants.hpp
index 51f71b3..d29d969 100644
--- a/include/NazaraUtils/Constants.hpp
+++ b/include/NazaraUtils/Constants.hpp
@@ -47,37 +47,37 @@ namespace Nz
 		static constexpr T HalfPi()
 		{
 			static_assert(std::is_floating_point_v<T>);
-			return T(1.5707963267948966192313216916398);
+			return T(1.5707963267948966192313216916398L);
 		}
 
 		static constexpr T Pi()
 		{
 			static_assert(std::is_floating_point_v<T>);
-			return T(3.1415926535897932384626433832795);
+			return T(3.1415926535897932384626433832795L);
 		}
 
 		static constexpr T Sqrt2()
 		{
 			static_assert(std::is_floating_point_v<T>);
-			return T(1.4142135623730950488016887242097);
+			return T(1.4142135623730950488016887242097L);
 		}
 
 		static constexpr T Sqrt3()
 		{
 			static_assert(std::is_floating_point_v<T>);
-			return T(1.7320508075688772935274463415059);
+			return T(1.7320508075688772935274463415059L);
 		}
 
 		static constexpr T Sqrt5()
 		{
 			static_assert(std::is_floating_point_v<T>);
-			return T(2.2360679774997896964091736687313);
+			return T(2.2360679774997896964091736687313L);
 		}
 
 		static constexpr T Tau()
 		{
 			static_assert(std::is_floating_point_v<T>);
-			return T(6.2831853071795864769252867665590);
+			return T(6.2831853071795864769252867665590L);
 		}
 	};
 
-- 
2.43.0


From 81ce5e12bf6e6c05881ea7022afcfbfb4bf70b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:12 +0000
Subject: [PATCH 74/85] fix: NazaraAssert and NazaraAssertMsg take the else
 branch of the if statement they are in

---
 include/NazaraUtils/Assert.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/Assert.hpp b/include/NazaraUtils/Assert.hpp
index 23c3a10..f788308 100644
--- a/include/NazaraUtils/Assert.hpp
+++ b/include/NazaraUtils/Assert.hpp
@@ -11,8 +11,8 @@
 #include <NazaraUtils/ConstantEvaluated.hpp>
 
 #if !defined(NAZARA_NO_ASSERT) && (defined(NAZARA_ENABLE_ASSERTS) || !defined(NDEBUG))
-	#define NazaraAssert(cond) if NAZARA_UNLIKELY(!(cond)) Nz::AssertFailureWithSource(__FILE__, __LINE__, #cond)
-	#define NazaraAssertMsg(cond, ...) if NAZARA_UNLIKELY(!(cond)) Nz::AssertFailureWithSource(__FILE__, __LINE__, __VA_ARGS__)
+	#define NazaraAssert(cond) do { if NAZARA_UNLIKELY(!(cond)) Nz::AssertFailureWithSource(__FILE__, __LINE__, #cond); } while (false)
+	#define NazaraAssertMsg(cond, ...) do { if NAZARA_UNLIKELY(!(cond)) Nz::AssertFailureWithSource(__FILE__, __LINE__, __VA_ARGS__); } while (false)
 #else
 	#define NazaraAssert(...) do {} while (false)
 	#define NazaraAssertMsg(...) do {} while (false)
-- 
2.43.0


From ead87c47f8b4d67ddf138af9e9d77464d9336849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:13 +0000
Subject: [PATCH 75/85] fix: Mod of floating-point values in constant
 expressions is not exact and does not handle large quotients

---
 include/NazaraUtils/MathUtils.inl | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/include/NazaraUtils/MathUtils.inl b/include/NazaraUtils/MathUtils.inl
index 370c677..f58114a 100644
--- a/include/NazaraUtils/MathUtils.inl
+++ b/include/NazaraUtils/MathUtils.inl
@@ -861,7 +861,26 @@ NAZARA_WARNING_POP()
 			}
 			else
 			{
-				return x - static_cast<long long>(x / y) * y;
+				// std::fmod is not constexpr before C++23: exact long division (dividing x by y would round the quotient)
+				T remainder = (x < T(0)) ? -x : x;
+				const T divisor = (y < T(0)) ? -y : y;
+				if (!(divisor > T(0)) || !(remainder <= std::numeric_limits<T>::max()))
+					return std::numeric_limits<T>::quiet_NaN();
+
+				if (!(remainder >= divisor))
+					return x;
+
+				T step = divisor;
+				while (step <= remainder / T(2))
+					step *= T(2);
+
+				for (; step >= divisor; step /= T(2))
+				{
+					if (remainder >= step)
+						remainder -= step;
+				}
+
+				return (x < T(0)) ? -remainder : remainder;
 			}
 		}
 		else
-- 
2.43.0


From fa8825bada264c0574cbc11db3c5dd689e446b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:43 +0000
Subject: [PATCH 76/85] fix: NumberEquals cannot be used in C++17 constant
 expressions when the second value is the greatest

---
 include/NazaraUtils/MathUtils.inl | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/include/NazaraUtils/MathUtils.inl b/include/NazaraUtils/MathUtils.inl
index f58114a..eda0398 100644
--- a/include/NazaraUtils/MathUtils.inl
+++ b/include/NazaraUtils/MathUtils.inl
@@ -115,27 +115,21 @@ namespace Nz
 			}
 			else
 			{
-				if (b > a)
-					std::swap(a, b);
-
-				T diff = a - b;
+				T diff = (b > a) ? b - a : a - b; //< std::swap is not constexpr in C++17
 				return diff <= maxDifference;
 			}
 		}
 
 		template<typename T> constexpr std::enable_if_t<!std::is_signed<T>::value || (!std::is_integral<T>::value && !std::is_floating_point<T>::value), bool> NumberEquals(T a, T b, T maxDifference)
 		{
-			if (b > a)
-				std::swap(a, b);
-
-			T diff = a - b;
+			T diff = (b > a) ? b - a : a - b; //< std::swap is not constexpr in C++17
 			return diff <= maxDifference;
 		}
 
 		template<typename T> constexpr std::enable_if_t<std::is_signed<T>::value&& std::is_integral<T>::value, bool> NumberEquals(T a, T b, T maxDifference)
 		{
 			if (b > a)
-				std::swap(a, b);
+				return NumberEquals(b, a, maxDifference); //< std::swap is not constexpr in C++17
 
 			using UnsignedT = std::make_unsigned_t<T>;
 			return static_cast<UnsignedT>(static_cast<UnsignedT>(a) - static_cast<UnsignedT>(b)) <= static_cast<UnsignedT>(maxDifference);
-- 
2.43.0


From f19930dd3800dd853d587854cb5a14b582ef3e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:34 +0000
Subject: [PATCH 77/85] fix: Bitset::Bit can be used in constant expressions

---
 include/NazaraUtils/Bitset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/Bitset.hpp b/include/NazaraUtils/Bitset.hpp
index d547ffd..943fe20 100644
--- a/include/NazaraUtils/Bitset.hpp
+++ b/include/NazaraUtils/Bitset.hpp
@@ -175,7 +175,7 @@ namespace Nz
 			constexpr Bit& operator-=(bool val);
 
 		private:
-			Bit(Block& block, Block mask) :
+			constexpr Bit(Block& block, Block mask) :
 			m_block(block),
 			m_mask(mask)
 			{
-- 
2.43.0


From e81c66e3c8ca8b65c2992186dd55b0acf8c7baf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:34 +0000
Subject: [PATCH 78/85] fix: EnumArray key/value iterators can be dereferenced
 in C++17 constant expressions

---
 include/NazaraUtils/EnumArray.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/EnumArray.inl b/include/NazaraUtils/EnumArray.inl
index bcaf2f0..1bdd812 100644
--- a/include/NazaraUtils/EnumArray.inl
+++ b/include/NazaraUtils/EnumArray.inl
@@ -132,14 +132,14 @@ namespace Nz
 	constexpr auto EnumArrayKvIterator<E, V, Const>::operator*() const noexcept -> value_type
 	{
 		E enumKey = static_cast<E>(m_index);
-		return std::make_pair(enumKey, std::ref((*m_array)[enumKey]));
+		return value_type(enumKey, (*m_array)[enumKey]);
 	}
 
 	template<typename E, typename V, bool Const>
 	constexpr auto EnumArrayKvIterator<E, V, Const>::operator[](difference_type n) const noexcept -> value_type
 	{
 		E enumKey = static_cast<E>(m_index + n);
-		return std::make_pair(enumKey, std::ref((*m_array)[enumKey]));
+		return value_type(enumKey, (*m_array)[enumKey]);
 	}
 
 	template<typename E, typename V, bool Const>
-- 
2.43.0


From 3cfaacfcfa4d91aa6c3b270ae6b3339ae61e24ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:30 +0000
Subject: [PATCH 79/85] fix: Bitset can be constructed from a string in
 constant expressions (other compilers than GCC)

---
 include/NazaraUtils/Bitset.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/Bitset.inl b/include/NazaraUtils/Bitset.inl
index 5c204e6..5668128 100644
--- a/include/NazaraUtils/Bitset.inl
+++ b/include/NazaraUtils/Bitset.inl
@@ -4,7 +4,7 @@
 
 #include <NazaraUtils/Assert.hpp>
 #include <algorithm>
-#include <cstring>
+#include <string>
 #include <utility>
 
 // Bits tricks require us to disable some warnings under VS
@@ -52,7 +52,7 @@ namespace Nz
 	*/
 	template<typename Block, typename Container>
 	constexpr Bitset<Block, Container>::Bitset(const char* bits) :
-	Bitset(bits, std::strlen(bits))
+	Bitset(bits, std::char_traits<char>::length(bits))
 	{
 	}
 
-- 
2.43.0


From 58707e51a0933113ca39a342c1c0028469fffa96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:00 +0000
Subject: [PATCH 80/85] fix: Constants.hpp and OffsetOf.hpp can be included on
 their own

---
 include/NazaraUtils/Constants.hpp | 1 +
 include/NazaraUtils/OffsetOf.hpp  | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/include/NazaraUtils/Constants.hpp b/include/NazaraUtils/Constants.hpp
index d29d969..48fc062 100644
--- a/include/NazaraUtils/Constants.hpp
+++ b/include/NazaraUtils/Constants.hpp
@@ -11,6 +11,7 @@
 #include <NazaraUtils/Concepts.hpp>
 #include <climits>
 #include <limits>
+#include <type_traits>
 
 namespace Nz
 {
diff --git a/include/NazaraUtils/OffsetOf.hpp b/include/NazaraUtils/OffsetOf.hpp
index a65aa4c..22abc11 100644
--- a/include/NazaraUtils/OffsetOf.hpp
+++ b/include/NazaraUtils/OffsetOf.hpp
@@ -7,6 +7,8 @@
 #ifndef NAZARAUTILS_OFFSETOF_HPP
 #define NAZARAUTILS_OFFSETOF_HPP
 
+#include <cstddef>
+
 // By "Jesse Good" from SO:
 // http://stackoverflow.com/questions/12811330/c-compile-time-offsetof-inside-a-template?answertab=votes#tab-top
 
-- 
2.43.0


From a811c14a36463328ce53ba16afab1e3559c81d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:41 +0000
Subject: [PATCH 81/85] fix: callbacks owning connection guards to other slots
 of their signal when it is cleared, assigned or destroyed

---
 include/NazaraUtils/Signal.hpp |  2 +-
 include/NazaraUtils/Signal.inl | 25 ++++++++++++++++++++++---
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/include/NazaraUtils/Signal.hpp b/include/NazaraUtils/Signal.hpp
index bcd258d..f03cea9 100644
--- a/include/NazaraUtils/Signal.hpp
+++ b/include/NazaraUtils/Signal.hpp
@@ -35,7 +35,7 @@ namespace Nz
 			Signal();
 			Signal(const Signal&);
 			Signal(Signal&& signal) noexcept;
-			~Signal() = default;
+			~Signal();
 
 			void Clear();
 
diff --git a/include/NazaraUtils/Signal.inl b/include/NazaraUtils/Signal.inl
index 9fd286a..bc60f96 100644
--- a/include/NazaraUtils/Signal.inl
+++ b/include/NazaraUtils/Signal.inl
@@ -46,6 +46,15 @@ namespace Nz
 		operator=(std::move(signal));
 	}
 
+	/*!
+	* \brief Destructs the signal and its slots
+	*/
+	template<typename... Args>
+	Signal<Args...>::~Signal()
+	{
+		Clear();
+	}
+
 	/*!
 	* \brief Clears the list of actions attached to the signal
 	*/
@@ -53,7 +62,13 @@ namespace Nz
 	template<typename... Args>
 	void Signal<Args...>::Clear()
 	{
-		m_slots.clear();
+		// Callbacks may own connection guards to our other slots, which get disconnected as callbacks are destroyed
+		while (!m_slots.empty())
+		{
+			SlotPtr slot = std::move(m_slots.back());
+			m_slots.pop_back();
+		}
+
 		m_slotIterator = 0;
 	}
 
@@ -209,11 +224,15 @@ namespace Nz
 	template<typename... Args>
 	Signal<Args...>& Signal<Args...>::operator=(Signal&& signal) noexcept
 	{
+		if (&signal == this)
+			return *this;
+
+		Clear();
+
 		m_slots = std::move(signal.m_slots);
 		m_slotIterator = signal.m_slotIterator;
 
-		if (&signal != this)
-			signal.Clear(); //< the moved list may still hold (null) slots
+		signal.Clear(); //< the moved list may still hold (null) slots
 
 		// We need to update the signal pointer inside of each slot
 		for (SlotPtr& slot : m_slots)
-- 
2.43.0


From da0f78e99a4496df9b792657c7bdb94f276feabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:28 +0000
Subject: [PATCH 82/85] fix: align the storage of NazaraStackVector and
 NazaraStackArray for over-aligned types

---
 include/NazaraUtils/MemoryHelper.hpp | 10 ++++++++++
 include/NazaraUtils/MemoryHelper.inl | 16 ++++++++++++++++
 include/NazaraUtils/StackArray.hpp   |  4 ++--
 include/NazaraUtils/StackVector.hpp  |  2 +-
 4 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/include/NazaraUtils/MemoryHelper.hpp b/include/NazaraUtils/MemoryHelper.hpp
index 9752fca..a25977b 100644
--- a/include/NazaraUtils/MemoryHelper.hpp
+++ b/include/NazaraUtils/MemoryHelper.hpp
@@ -35,6 +35,16 @@
 
 namespace Nz
 {
+	namespace Detail
+	{
+		// alloca only guarantees the fundamental alignment
+		template<typename T>
+		constexpr std::size_t StackPadding = (alignof(T) > alignof(std::max_align_t)) ? alignof(T) - 1 : 0;
+
+		template<typename T>
+		T* AlignStackMemory(void* memory) noexcept;
+	}
+
 	template<typename T, typename... Args>
 	constexpr T* PlacementNew(T* ptr, Args&&... args);
 
diff --git a/include/NazaraUtils/MemoryHelper.inl b/include/NazaraUtils/MemoryHelper.inl
index d0d1c40..2f91b81 100644
--- a/include/NazaraUtils/MemoryHelper.inl
+++ b/include/NazaraUtils/MemoryHelper.inl
@@ -3,6 +3,7 @@
 // For conditions of distribution and use, see copyright notice in Config.hpp
 
 #include <cassert>
+#include <cstdint>
 #include <new>
 #include <utility>
 
@@ -14,6 +15,21 @@ namespace Nz
 	* \brief Core functions that helps the handle of memory in the engine
 	*/
 
+	namespace Detail
+	{
+		template<typename T>
+		T* AlignStackMemory(void* memory) noexcept
+		{
+			if constexpr (StackPadding<T> != 0)
+			{
+				std::uintptr_t address = reinterpret_cast<std::uintptr_t>(memory);
+				return reinterpret_cast<T*>((address + StackPadding<T>) & ~static_cast<std::uintptr_t>(StackPadding<T>));
+			}
+			else
+				return static_cast<T*>(memory);
+		}
+	}
+
 	/*!
 	* \brief Constructs the object inplace
 	* \return Pointer to the constructed object
diff --git a/include/NazaraUtils/StackArray.hpp b/include/NazaraUtils/StackArray.hpp
index d7add20..f441a76 100644
--- a/include/NazaraUtils/StackArray.hpp
+++ b/include/NazaraUtils/StackArray.hpp
@@ -11,8 +11,8 @@
 #include <NazaraUtils/MovablePtr.hpp>
 
 #ifdef NAZARA_ALLOCA_SUPPORT
-	#define NazaraStackArray(T, size) Nz::StackArray<T>(static_cast<T*>(NAZARA_ALLOCA((size) * sizeof(T))), size)
-	#define NazaraStackArrayNoInit(T, size) Nz::StackArray<T>(static_cast<T*>(NAZARA_ALLOCA((size) * sizeof(T))), size, typename Nz::StackArray<T>::NoInitTag())
+	#define NazaraStackArray(T, size) Nz::StackArray<T>(Nz::Detail::AlignStackMemory<T>(NAZARA_ALLOCA((size) * sizeof(T) + Nz::Detail::StackPadding<T>)), size)
+	#define NazaraStackArrayNoInit(T, size) Nz::StackArray<T>(Nz::Detail::AlignStackMemory<T>(NAZARA_ALLOCA((size) * sizeof(T) + Nz::Detail::StackPadding<T>)), size, typename Nz::StackArray<T>::NoInitTag())
 #else
 	#define NazaraStackArray(T, size) Nz::StackArray<T>(static_cast<T*>(Nz::OperatorNew((size) * sizeof(T))), size)
 	#define NazaraStackArrayNoInit(T, size) Nz::StackArray<T>(static_cast<T*>(Nz::OperatorNew((size) * sizeof(T))), size, typename Nz::StackArray<T>::NoInitTag())
diff --git a/include/NazaraUtils/StackVector.hpp b/include/NazaraUtils/StackVector.hpp
index 7f06b0c..0038ee8 100644
--- a/include/NazaraUtils/StackVector.hpp
+++ b/include/NazaraUtils/StackVector.hpp
@@ -11,7 +11,7 @@
 #include <NazaraUtils/MovablePtr.hpp>
 
 #ifdef NAZARA_ALLOCA_SUPPORT
-	#define NazaraStackVector(T, capacity) Nz::StackVector<T>(static_cast<T*>(NAZARA_ALLOCA((capacity) * sizeof(T))), capacity)
+	#define NazaraStackVector(T, capacity) Nz::StackVector<T>(Nz::Detail::AlignStackMemory<T>(NAZARA_ALLOCA((capacity) * sizeof(T) + Nz::Detail::StackPadding<T>)), capacity)
 #else
 	#define NazaraStackVector(T, capacity) Nz::StackVector<T>(static_cast<T*>(operator new((capacity) * sizeof(T))), capacity)
 #endif
-- 
2.43.0


From d7dd484a371da5030e2a8333866f0fc88b547c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:28 +0000
Subject: [PATCH 83/85] fix: noexcept move assignment of an in-place
 HybridVector allocated when the target used its fallback

---
 include/NazaraUtils/FixedVector.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/FixedVector.inl b/include/NazaraUtils/FixedVector.inl
index 2ad7f07..70a9f8f 100644
--- a/include/NazaraUtils/FixedVector.inl
+++ b/include/NazaraUtils/FixedVector.inl
@@ -785,7 +785,7 @@ namespace Nz
 		}
 
 		clear();
-		reserve(vec.size());
+		m_size = 0; //< the elements fit in-place: filling the fallback could allocate, and thus throw
 		for (size_type i = 0; i < vec.size(); ++i)
 			push_back(std::move(vec[i]));
 
-- 
2.43.0


From 3856fa01ece78cfab84e19e51a221708cbf7b439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:43 +0000
Subject: [PATCH 84/85] fix: Result: only offer the conversion of a constant
 result when its parts can be copied into it

---
 include/NazaraUtils/Result.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/Result.hpp b/include/NazaraUtils/Result.hpp
index 9b10696..63e880f 100644
--- a/include/NazaraUtils/Result.hpp
+++ b/include/NazaraUtils/Result.hpp
@@ -69,7 +69,7 @@ namespace Nz
 			template<typename T> constexpr Result(ResultError<T> error);
 			template<typename... Args> constexpr Result(ValueTag, Args&&... args);
 			template<typename... Args> constexpr Result(ErrorTag, Args&&... args);
-			template<typename V2, typename E2, typename = std::enable_if_t<std::is_convertible_v<V2, V> && std::is_convertible_v<E2, E>>> constexpr Result(const Result<V2, E2>& result);
+			template<typename V2, typename E2, typename = std::enable_if_t<std::is_convertible_v<const V2&, V> && std::is_convertible_v<const E2&, E>>> constexpr Result(const Result<V2, E2>& result);
 			template<typename V2, typename E2, typename = std::enable_if_t<std::is_convertible_v<V2, V> && std::is_convertible_v<E2, E>>> constexpr Result(Result<V2, E2>&& result);
 			constexpr Result(const Result&) = default;
 			constexpr Result(Result&&) = default;
@@ -130,7 +130,7 @@ namespace Nz
 			template<typename T> constexpr Result(ResultError<T> error);
 			constexpr Result(ValueTag);
 			template<typename... Args> constexpr Result(ErrorTag, Args&&... args);
-			template<typename E2, typename = std::enable_if_t<std::is_convertible_v<E2, E>>> constexpr Result(const Result<void, E2>& result);
+			template<typename E2, typename = std::enable_if_t<std::is_convertible_v<const E2&, E>>> constexpr Result(const Result<void, E2>& result);
 			template<typename E2, typename = std::enable_if_t<std::is_convertible_v<E2, E>>> constexpr Result(Result<void, E2>&& result);
 			constexpr Result(const Result&) = default;
 			constexpr Result(Result&&) = default;
-- 
2.43.0


From 38f23fdc93862bd29c50139872108d0f4ce1dd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:57 +0000
Subject: [PATCH 85/85] fix: Bitset: let the standard library recognise
 BitIterator as the input iterator it declares to be

---
 include/NazaraUtils/Bitset.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/NazaraUtils/Bitset.hpp b/include/NazaraUtils/Bitset.hpp
index 943fe20..a67513f 100644
--- a/include/NazaraUtils/Bitset.hpp
+++ b/include/NazaraUtils/Bitset.hpp
@@ -193,6 +193,9 @@ namespace Nz
 		public:
 			using iterator_category = std::input_iterator_tag;
 			using value_type = std::size_t;
+			using difference_type = std::ptrdiff_t;
+			using pointer = void;
+			using reference = value_type;
 
 			constexpr BitIterator(const BitIterator&) = default;
 			constexpr BitIterator(BitIterator&&) noexcept = default;
-- 
2.43.0

