From 8f16a4f0e71d8a43580c1211c65d68b1c467fb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:08 +0000
Subject: [PATCH 01/92] fix: Vector::resize sets the requested size and
 constructs elements grown within capacity

---
 lib/include/spvgentwo/Vector.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/include/spvgentwo/Vector.h b/lib/include/spvgentwo/Vector.h
index d09c989..d5f961f 100644
--- a/lib/include/spvgentwo/Vector.h
+++ b/lib/include/spvgentwo/Vector.h
@@ -263,23 +263,23 @@ namespace spvgentwo
 	template<class U>
 	inline bool Vector<U>::resize(sgt_size_t _size, const T* _pInitValue)
 	{
-		if ( _size > m_capacity )
+		if ( reserve(_size) == false )
 		{
-			if ( reserve(_size) == false )
-			{
-				return false;
-			}
+			return false;
+		}
 
+		if ( _size > m_elements ) // grow
+		{
 			if ( _pInitValue == nullptr || stdrep::is_copy_constructible_v<T> == false )
 			{
-				for ( sgt_size_t i = m_elements; i < m_capacity; ++i )
+				for ( sgt_size_t i = m_elements; i < _size; ++i )
 				{
 					new(m_pData + i) T{};
 				}
 			}
 			else if constexpr ( stdrep::is_copy_constructible_v<T> )
 			{
-				for ( sgt_size_t i = m_elements; i < m_capacity; ++i )
+				for ( sgt_size_t i = m_elements; i < _size; ++i )
 				{
 					new(m_pData + i) T{ *_pInitValue };
 				}
@@ -294,7 +294,7 @@ namespace spvgentwo
 			}
 		}
 
-		m_elements = m_capacity;
+		m_elements = _size;
 
 		return true;
 	}
-- 
2.43.0


From 4342bab237a1eca66701a61a86d1358fdc33c3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:08 +0000
Subject: [PATCH 02/92] fix: Vector::insert shifts any number of elements
 within capacity and destroys moved-out ones

---
 lib/include/spvgentwo/Vector.h | 41 ++++++++++++++++++++++++----------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/lib/include/spvgentwo/Vector.h b/lib/include/spvgentwo/Vector.h
index d5f961f..6464fcf 100644
--- a/lib/include/spvgentwo/Vector.h
+++ b/lib/include/spvgentwo/Vector.h
@@ -342,27 +342,40 @@ namespace spvgentwo
 		// no reallocation needed
 		if ( m_elements + _count <= m_capacity )
 		{
-			auto remainder = m_elements - _pos;
-
-			// move-construct last remainder elements to reserved but un-initialized data at the end
-			for ( sgt_size_t i = 0u; i < remainder; ++i )
-			{
-				traits::constructWithArgs(m_pData + _pos + _count + i, stdrep::move(m_pData[_pos + i]));
-			}
-			for ( sgt_size_t i = 0u; i < remainder; ++i )
+			// move the elements behind _pos back by _count, last element first
+			for ( sgt_size_t i = m_elements; i > _pos; --i )
 			{
-				m_pData[_pos + i] = _pData[i];
+				const auto dst = i - 1u + _count;
+				if ( dst >= m_elements ) // reserved but un-initialized data at the end
+				{
+					traits::constructWithArgs(m_pData + dst, stdrep::move(m_pData[i - 1u]));
+				}
+				else
+				{
+					m_pData[dst] = stdrep::move(m_pData[i - 1u]);
+				}
 			}
-			auto rest = _count - remainder;
-			for ( sgt_size_t i = 0u; i < rest; ++i )
+			for ( sgt_size_t i = 0u; i < _count; ++i ) // inserted data
 			{
-				traits::constructWithArgs(m_pData + m_elements + i, stdrep::move(_pData[remainder + i]));
+				if ( _pos + i < m_elements )
+				{
+					m_pData[_pos + i] = _pData[i];
+				}
+				else
+				{
+					traits::constructWithArgs(m_pData + _pos + i, _pData[i]);
+				}
 			}
 
 			m_elements += _count;
 		}
 		else
 		{
+			if ( m_pAllocator == nullptr )
+			{
+				return nullptr;
+			}
+
 			const auto newSize = m_elements + _count;
 			const auto newCapacity = newSize + (newSize >> 2); // grow by 1.25
 
@@ -392,6 +405,10 @@ namespace spvgentwo
 
 			if ( m_pData != nullptr )
 			{
+				for ( sgt_size_t i = 0u; i < m_elements; ++i )
+				{
+					m_pData[i].~T();
+				}
 				m_pAllocator->deallocate(m_pData, m_capacity * sizeof(T));
 			}
 
-- 
2.43.0


From 1f3b90aa4492fb4f91bb57cc868a319b59432707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:08 +0000
Subject: [PATCH 03/92] fix: Vector::assign clamps its range without overflow

---
 lib/include/spvgentwo/Vector.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/include/spvgentwo/Vector.h b/lib/include/spvgentwo/Vector.h
index 6464fcf..2fd2059 100644
--- a/lib/include/spvgentwo/Vector.h
+++ b/lib/include/spvgentwo/Vector.h
@@ -314,7 +314,12 @@ namespace spvgentwo
 	template<class U>
 	inline void Vector<U>::assign(const T& _data, sgt_size_t _pos, sgt_size_t _count)
 	{
-		if ( _pos + _count > m_elements )
+		if ( _pos > m_elements )
+		{
+			return;
+		}
+
+		if ( _count > m_elements - _pos )
 		{
 			_count = m_elements - _pos;
 		}
-- 
2.43.0


From 594a1b2d38d430c17625cc3738c0f9ea853595e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:24 +0000
Subject: [PATCH 04/92] fix: Entry::insertBefore links the following entry back
 to the new one

---
 lib/include/spvgentwo/Entry.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/include/spvgentwo/Entry.h b/lib/include/spvgentwo/Entry.h
index eed12eb..6d8f75f 100644
--- a/lib/include/spvgentwo/Entry.h
+++ b/lib/include/spvgentwo/Entry.h
@@ -167,7 +167,8 @@ namespace spvgentwo
 
 		entry->m_pPrev = m_pPrev;
 		entry->m_pNext = this;
-		
+		m_pPrev = entry;
+
 		return entry;
 	}
 
-- 
2.43.0


From b055b139b87522bd10df2a3e4728d451edc77b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:24 +0000
Subject: [PATCH 05/92] fix: List copy assignment unlinks surplus entries of
 the left side

---
 lib/include/spvgentwo/List.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/include/spvgentwo/List.h b/lib/include/spvgentwo/List.h
index a8339bf..b1998ad 100644
--- a/lib/include/spvgentwo/List.h
+++ b/lib/include/spvgentwo/List.h
@@ -182,9 +182,9 @@ namespace spvgentwo
 		}
 
 		// left side was longer, destroy rest
-		if(l != le)
+		while(l != le)
 		{
-			l.entry()->destroyList(m_pAllocator);
+			l = erase(l);
 		}
 
 		// right side was longer, emplace
-- 
2.43.0


From 5984f71b818eb812115bd7d695ce99406be34761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:24 +0000
Subject: [PATCH 06/92] fix: List counts and links only entries that could be
 allocated

---
 lib/include/spvgentwo/List.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/include/spvgentwo/List.h b/lib/include/spvgentwo/List.h
index b1998ad..ca1774e 100644
--- a/lib/include/spvgentwo/List.h
+++ b/lib/include/spvgentwo/List.h
@@ -238,6 +238,8 @@ namespace spvgentwo
 	template<class T>
 	inline Entry<T>* List<T>::prepend_entry(Entry<T>* _entry)
 	{
+		if (_entry == nullptr) return nullptr;
+
 		if (m_pBegin == nullptr)
 		{
 			m_pBegin = _entry;
@@ -254,6 +256,8 @@ namespace spvgentwo
 	template<class T>
 	inline Entry<T>* List<T>::append_entry(Entry<T>* _entry)
 	{
+		if (_entry == nullptr) return nullptr;
+
 		if (m_pBegin == nullptr)
 		{
 			m_pBegin = _entry;
@@ -299,8 +303,10 @@ namespace spvgentwo
 	template<class ...Args>
 	inline Entry<T>* List<T>::insert_before(Iterator _pos, Args&& ..._args)
 	{
-		++m_Elements;
 		Entry<T>* entry = _pos.entry()->insertBefore(m_pAllocator, stdrep::forward<Args>(_args)...);
+		if (entry == nullptr) return nullptr;
+
+		++m_Elements;
 		if (_pos.entry() == m_pBegin)
 		{
 			m_pBegin = entry;
@@ -312,8 +318,10 @@ namespace spvgentwo
 	template<class ...Args>
 	inline Entry<T>* List<T>::insert_after(Iterator _pos, Args&& ..._args)
 	{
-		++m_Elements;
 		Entry<T>* entry = _pos.entry()->insertAfter(m_pAllocator, stdrep::forward<Args>(_args)...);
+		if (entry == nullptr) return nullptr;
+
+		++m_Elements;
 		if (_pos.entry() == m_pLast)
 		{
 			m_pLast = entry;
-- 
2.43.0


From b06258133c5bf4083c854ea583a0c8921c3ea42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:52 +0000
Subject: [PATCH 07/92] fix: HashMap::eraseRange keeps the element count

---
 lib/include/spvgentwo/HashMap.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/include/spvgentwo/HashMap.h b/lib/include/spvgentwo/HashMap.h
index d29619f..565cd49 100644
--- a/lib/include/spvgentwo/HashMap.h
+++ b/lib/include/spvgentwo/HashMap.h
@@ -261,6 +261,7 @@ namespace spvgentwo
 			if (it->hash == h)
 			{
 				it = bucket.erase(it);
+				--m_Elements;
 				++keys;
 			}
 			else 
-- 
2.43.0


From cded2008c7f953579cb8a89fc1d806f9a532fd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:52 +0000
Subject: [PATCH 08/92] fix: HashMap::findKey iterates the nodes of a bucket

---
 lib/include/spvgentwo/HashMap.h | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/lib/include/spvgentwo/HashMap.h b/lib/include/spvgentwo/HashMap.h
index 565cd49..027b226 100644
--- a/lib/include/spvgentwo/HashMap.h
+++ b/lib/include/spvgentwo/HashMap.h
@@ -324,14 +324,11 @@ namespace spvgentwo
 	{
 		for (auto i = 0u; i < m_Buckets; ++i)
 		{
-			for (Bucket& b : m_pBuckets[i])
+			for (Node& n : m_pBuckets[i])
 			{
-				for (Node& n : b)
+				if (n.kv.value == _value)
 				{
-					if (n.kv.value == _value)
-					{
-						return &n.kv.key;
-					}
+					return &n.kv.key;
 				}
 			}
 		}
-- 
2.43.0


From 05a4869820227f9d735380cb6b097d4f9bfdbaff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:21 +0000
Subject: [PATCH 09/92] fix: HashMap without buckets (default, moved-from, no
 memory) can be queried

---
 lib/include/spvgentwo/HashMap.h | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/lib/include/spvgentwo/HashMap.h b/lib/include/spvgentwo/HashMap.h
index 027b226..c5bb3b1 100644
--- a/lib/include/spvgentwo/HashMap.h
+++ b/lib/include/spvgentwo/HashMap.h
@@ -93,7 +93,7 @@ namespace spvgentwo
 		Bucket* m_pBuckets = nullptr;
 		unsigned int m_Buckets = 0u;
 		unsigned int m_Elements = 0u;
-		HashFunc m_pHashFunc = nullptr;
+		HashFunc m_pHashFunc = hash<Key>;
 	};
 
 	template<class Key, class Value>
@@ -103,11 +103,16 @@ namespace spvgentwo
 		if (m_pAllocator != nullptr)
 		{
 			m_pBuckets = static_cast<Bucket*>(m_pAllocator->allocate(m_Buckets * sizeof(Bucket), alignof(Bucket)));
-			for (auto i = 0u; i < m_Buckets; ++i)
+			for (auto i = 0u; m_pBuckets != nullptr && i < m_Buckets; ++i)
 			{
 				new(m_pBuckets + i) Bucket(m_pAllocator);
 			}
 		}
+
+		if (m_pBuckets == nullptr)
+		{
+			m_Buckets = 0u;
+		}
 	}
 
 	template<class Key, class Value>
@@ -122,7 +127,6 @@ namespace spvgentwo
 		_other.m_pBuckets = nullptr;
 		_other.m_Buckets = 0u;
 		_other.m_Elements = 0u;
-		_other.m_pHashFunc = nullptr;
 	}
 
 	template<class Key, class Value>
@@ -138,7 +142,6 @@ namespace spvgentwo
 			m_pBuckets = nullptr;
 			m_pAllocator = nullptr;
 			m_Elements = 0u;
-			m_pHashFunc = nullptr;
 		}
 	}
 
@@ -179,7 +182,6 @@ namespace spvgentwo
 		_other.m_pAllocator = nullptr;
 		_other.m_pBuckets = nullptr;
 		_other.m_Elements = 0u;
-		_other.m_pHashFunc = nullptr;
 
 		return *this;
 	}
@@ -187,6 +189,8 @@ namespace spvgentwo
 	template<class Key, class Value>
 	inline Value* HashMap<Key, Value>::get(const Hash64 _hash) const
 	{
+		if (m_Buckets == 0u) return nullptr;
+
 		const auto index = _hash % m_Buckets;
 
 		for (Node& n : m_pBuckets[index])
@@ -201,6 +205,8 @@ namespace spvgentwo
 	template<class Key, class Value>
 	inline typename HashMap<Key, Value>::TRange HashMap<Key, Value>::getRange(const Hash64 _hash) const
 	{
+		if (m_Buckets == 0u) return {};
+
 		const auto index = _hash % m_Buckets;
 		const Bucket& bucket = m_pBuckets[index];
 
@@ -252,6 +258,8 @@ namespace spvgentwo
 		}
 
 		unsigned int keys = 0u;
+		if (m_Buckets == 0u) return keys;
+
 		const auto index = h % m_Buckets;
 
 		Bucket& bucket = m_pBuckets[index];
@@ -277,6 +285,8 @@ namespace spvgentwo
 	inline unsigned int HashMap<Key, Value>::count(const Hash64 _hash) const
 	{
 		unsigned int keys = 0u;
+		if (m_Buckets == 0u) return keys;
+
 		const auto index = _hash % m_Buckets;
 
 		for (const Node& n : m_pBuckets[index])
@@ -304,6 +314,8 @@ namespace spvgentwo
 			h = m_pHashFunc(_key);
 		}
 
+		if (m_Buckets == 0u) return end();
+
 		const auto index = h % m_Buckets;
 
 		const Bucket& bucket = m_pBuckets[index];
-- 
2.43.0


From f7a28e4b9238b2682aef3572a1ca84df2ca4d827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:21 +0000
Subject: [PATCH 10/92] fix: HashMap::operator[] finds Hash64 keys under the
 hash they were inserted with

---
 lib/include/spvgentwo/HashMap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/include/spvgentwo/HashMap.h b/lib/include/spvgentwo/HashMap.h
index c5bb3b1..25ce4a6 100644
--- a/lib/include/spvgentwo/HashMap.h
+++ b/lib/include/spvgentwo/HashMap.h
@@ -54,7 +54,7 @@ namespace spvgentwo
 		Value* get(const T& _key) const { return get(m_pHashFunc(_key)); }
 
 		// retuns nullptr if not resident
-		Value* operator[](const Key& _key) const { return get(m_pHashFunc(_key)); }
+		Value* operator[](const Key& _key) const { return get(_key); }
 
 		TRange getRange(const Hash64 _hash) const;
 
-- 
2.43.0


From b4b03e9f970aa5a26ac629ff985c23fd29d99201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:21 +0000
Subject: [PATCH 11/92] fix: HashMap::emplace keeps equal keys adjacent so that
 getRange yields only them

---
 lib/include/spvgentwo/HashMap.h | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/lib/include/spvgentwo/HashMap.h b/lib/include/spvgentwo/HashMap.h
index 25ce4a6..a9c037a 100644
--- a/lib/include/spvgentwo/HashMap.h
+++ b/lib/include/spvgentwo/HashMap.h
@@ -360,23 +360,29 @@ namespace spvgentwo
 	template<class ...Args>
 	inline typename HashMap<Key, Value>::Node& HashMap<Key, Value>::emplace(const Key& _key, Args&& ..._args)
 	{
-		Entry<Node>* pNode = Entry<Node>::create(m_pAllocator, _key, stdrep::forward<Args>(_args)...);
-
-		Node& n = pNode->inner();
+		Hash64 h = 0u;
 
 		if constexpr (stdrep::is_same_v<Key, Hash64>)
 		{
-			n.hash = _key;
+			h = _key;
 		}
 		else
 		{
-			n.hash = m_pHashFunc(_key);
+			h = m_pHashFunc(_key);
 		}
 
-		const auto index = n.hash % m_Buckets;
+		Bucket& bucket = m_pBuckets[h % m_Buckets];
 
-		// append to chain
-		m_pBuckets[index].append_entry(pNode);
+		// append to chain, behind the last node with the same key so that getRange() is contiguous
+		auto last = bucket.last();
+		for (; last != nullptr && last->hash != h; --last) {}
+
+		Entry<Node>* pNode = last == nullptr ?
+			bucket.emplace_back_entry(_key, stdrep::forward<Args>(_args)...) :
+			bucket.insert_after(last, _key, stdrep::forward<Args>(_args)...);
+
+		Node& n = pNode->inner();
+		n.hash = h;
 
 		++m_Elements;
 
-- 
2.43.0


From 8af38afa10b6ffa865013aed27e58a493d393d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:14 +0000
Subject: [PATCH 12/92] fix: String built from part of a string is
 zero-terminated, substr stays inside the string

---
 lib/include/spvgentwo/String.h | 8 +++++++-
 lib/source/String.cpp          | 9 +++++++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/lib/include/spvgentwo/String.h b/lib/include/spvgentwo/String.h
index 6578866..34af030 100644
--- a/lib/include/spvgentwo/String.h
+++ b/lib/include/spvgentwo/String.h
@@ -45,7 +45,13 @@ namespace spvgentwo
 
 		constexpr String(String&& _other) noexcept : Vector(stdrep::move(_other)) {}
 
-		String(IAllocator* _pAllocator, const char* _pStr = nullptr, sgt_size_t _length = 0u) : Vector(_pAllocator, _pStr, _length == 0u ? stringLength(_pStr) : _length) {};
+		String(IAllocator* _pAllocator, const char* _pStr = nullptr, sgt_size_t _length = 0u) : Vector(_pAllocator, _pStr, _length == 0u ? stringLength(_pStr) : _length)
+		{
+			if (m_elements != 0u && m_pData[m_elements - 1u] != '\0')
+			{
+				Vector::emplace_back('\0'); // only a part of _pStr was copied
+			}
+		}
 
 		String& operator=(const String& _other) { Vector::operator=(_other); return *this; }
 		String& operator=(String&& _other) noexcept { Vector::operator=(stdrep::move(_other)); return *this; }
diff --git a/lib/source/String.cpp b/lib/source/String.cpp
index 0452f5b..78c0262 100644
--- a/lib/source/String.cpp
+++ b/lib/source/String.cpp
@@ -19,8 +19,13 @@ spvgentwo::String& spvgentwo::String::operator=(const char* _pStr)
 
 spvgentwo::String spvgentwo::String::substr(sgt_size_t _offset, sgt_size_t _length)
 {
-	const sgt_size_t available = m_elements - _offset;
-	return String(m_pAllocator, m_pData+_offset, _length > available ? available : _length);
+	const sgt_size_t available = _offset < size() ? size() - _offset : 0u;
+	const sgt_size_t length = _length > available ? available : _length;
+	if (length == 0u)
+	{
+		return String(m_pAllocator, "");
+	}
+	return String(m_pAllocator, m_pData + _offset, length);
 }
 
 spvgentwo::String spvgentwo::String::operator+(const String& _other) const
-- 
2.43.0


From 0c2f98311e0e4edfd25ee7dd43af51a05fd93140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:14 +0000
Subject: [PATCH 13/92] fix: String appending keeps exactly one terminator for
 empty, partial and self arguments

---
 lib/source/String.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/lib/source/String.cpp b/lib/source/String.cpp
index 78c0262..ba4c0a2 100644
--- a/lib/source/String.cpp
+++ b/lib/source/String.cpp
@@ -46,14 +46,16 @@ spvgentwo::String spvgentwo::String::operator+(const char* _pStr) const
 
 spvgentwo::String& spvgentwo::String::operator+=(const String& _other)
 {
-	if (reserve(m_elements + _other.m_elements))
+	const sgt_size_t length = _other.size(); // _other might be this string
+	if (length != 0u && reserve(m_elements + length + 1u))
 	{
 		const sgt_size_t offset = m_elements > 0 && m_pData[m_elements - 1u] == '\0' ? m_elements - 1u : m_elements;
-		for (sgt_size_t i = 0; i < _other.m_elements; ++i)
+		for (sgt_size_t i = 0; i < length; ++i)
 		{
 			m_pData[offset + i] = _other[i];
 		}
-		m_elements = offset + _other.m_elements;
+		m_pData[offset + length] = '\0';
+		m_elements = offset + length + 1u;
 	}
 	return *this;
 }
@@ -65,8 +67,12 @@ spvgentwo::String& spvgentwo::String::operator+=(const char* _pStr)
 
 spvgentwo::String& spvgentwo::String::append(const char* _pStr, sgt_size_t _length)
 {
-	const sgt_size_t length = _length == 0u ? stringLength(_pStr) : _length;
-	if (reserve(m_elements + length))
+	sgt_size_t length = _length == 0u ? stringLength(_pStr) : _length;
+	if (length != 0u && _pStr[length - 1u] == '\0')
+	{
+		--length; // string terminator is added below
+	}
+	if (length != 0u && reserve(m_elements + length + 1u))
 	{
 		// we only want one string terminator, overwrite the old one an append
 		const sgt_size_t offset = m_elements > 0 && m_pData[m_elements - 1u] == '\0' ? m_elements - 1u : m_elements;
@@ -74,7 +80,8 @@ spvgentwo::String& spvgentwo::String::append(const char* _pStr, sgt_size_t _leng
 		{
 			m_pData[offset + i] = _pStr[i];
 		}
-		m_elements = offset + length;
+		m_pData[offset + length] = '\0';
+		m_elements = offset + length + 1u;
 	}
 	return *this;
 }
-- 
2.43.0


From 56692ef9f2c267a968b003e0a964e98214beb9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:14 +0000
Subject: [PATCH 14/92] fix: String::insert stays in front of the terminator,
 accepts empty arguments and returns a valid position

---
 lib/include/spvgentwo/String.h |  2 +-
 lib/source/String.cpp          | 17 +++++++++++++++--
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/lib/include/spvgentwo/String.h b/lib/include/spvgentwo/String.h
index 34af030..b9647d7 100644
--- a/lib/include/spvgentwo/String.h
+++ b/lib/include/spvgentwo/String.h
@@ -84,7 +84,7 @@ namespace spvgentwo
 		// don't insert the additional string terminator from _pCStr
 		Iterator insert(sgt_size_t _pos, const char* _pCStr, sgt_size_t _length = 0u);
 
-		Iterator insert(sgt_size_t _pos, const String& _str) { return Vector::insert(_pos, _str.data(), _str.size()); }
+		Iterator insert(sgt_size_t _pos, const String& _str) { return insert(_pos, _str.size() == 0u ? "" : _str.data(), _str.size()); }
 
 		bool operator==(const String& _other) const;
 		bool operator==(const char* _pStr) const;
diff --git a/lib/source/String.cpp b/lib/source/String.cpp
index ba4c0a2..e3e1dc6 100644
--- a/lib/source/String.cpp
+++ b/lib/source/String.cpp
@@ -117,12 +117,25 @@ bool spvgentwo::String::operator==(const char* _pStr) const
 
 spvgentwo::String::Iterator spvgentwo::String::insert(sgt_size_t _pos, const char* _pCStr, sgt_size_t _length)
 {
-	auto ret = Vector::insert(_pos, _pCStr, _length == 0u ? (stringLength(_pCStr) - 1u) : _length);
+	if (size() == 0u) // empty string, we can only insert at the beginning
+	{
+		_pos = 0u;
+	}
+	else if (_pos > size()) // behind the string terminator
+	{
+		return nullptr;
+	}
+
+	const sgt_size_t length = _length == 0u && _pCStr != nullptr ? (stringLength(_pCStr) - 1u) : _length;
+	if (length != 0u && Vector::insert(_pos, _pCStr, length) == nullptr)
+	{
+		return nullptr;
+	}
 
 	if (m_elements != 0u && m_pData[m_elements - 1u] != '\0')
 	{
 		// append string terminator if necessar
 		Vector::insert(m_elements, '\0');
 	}
-	return ret;
+	return begin() + _pos;
 }
\ No newline at end of file
-- 
2.43.0


From 95d19405a5115a82e938e9a7e13eb8b633815068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:14 +0000
Subject: [PATCH 15/92] fix: String comparison treats every empty string alike

---
 lib/source/String.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/source/String.cpp b/lib/source/String.cpp
index e3e1dc6..bc90c38 100644
--- a/lib/source/String.cpp
+++ b/lib/source/String.cpp
@@ -88,9 +88,9 @@ spvgentwo::String& spvgentwo::String::append(const char* _pStr, sgt_size_t _leng
 
 bool spvgentwo::String::operator==(const String& _other) const
 {
-	if (m_elements == _other.m_elements)
+	if (size() == _other.size())
 	{
-		for (sgt_size_t i = 0u; i < m_elements; ++i)
+		for (sgt_size_t i = 0u; i < size(); ++i)
 		{
 			if (m_pData[i] != _other.m_pData[i])
 				return false;
@@ -103,9 +103,9 @@ bool spvgentwo::String::operator==(const String& _other) const
 bool spvgentwo::String::operator==(const char* _pStr) const
 {
 	const sgt_size_t length = stringLength(_pStr);
-	if (m_elements == length)
+	if (size() + 1u == length || (length == 0u && size() == 0u))
 	{
-		for (sgt_size_t i = 0; i < m_elements; ++i)
+		for (sgt_size_t i = 0; i < size(); ++i)
 		{
 			if (m_pData[i] != _pStr[i])
 				return false;
-- 
2.43.0


From 71f89339515348d23a2a4e8083b773f0ceb51087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:51 +0000
Subject: [PATCH 16/92] fix: ExternalMemoryAllocator keeps its position when a
 request does not fit

---
 common/source/ExternalMemoryAllocator.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/common/source/ExternalMemoryAllocator.cpp b/common/source/ExternalMemoryAllocator.cpp
index 362e370..87914e8 100644
--- a/common/source/ExternalMemoryAllocator.cpp
+++ b/common/source/ExternalMemoryAllocator.cpp
@@ -4,7 +4,10 @@ void* spvgentwo::ExternalMemoryAllocator::allocate(sgt_size_t _bytes, unsigned i
 {
 	const auto capacity = static_cast<sgt_size_t>(static_cast<const char*>(m_pEnd) - static_cast<const char*>(m_pCurrent));
 	void* ptr = alignPowerOf2(_aligment, _bytes, m_pCurrent, capacity);
-	m_pCurrent = static_cast<char*>(ptr) + _bytes;
+	if (ptr != nullptr)
+	{
+		m_pCurrent = static_cast<char*>(ptr) + _bytes;
+	}
 	return ptr;
 }
 
-- 
2.43.0


From 38f55b2c6fe986e3e5e610e7b1da40add20fd21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:51 +0000
Subject: [PATCH 17/92] fix: compareLiteralString stops at the given length and
 fails on unterminated literals

---
 lib/source/Instruction.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index 5f888f3..b987c2d 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -2073,7 +2073,7 @@ bool spvgentwo::compareLiteralString(const char* _pStr, Instruction::Iterator _b
 		const char* str = reinterpret_cast<const char*>(&it->literal.value);
 		for (unsigned int i = 0u; i < sizeof(unsigned int); ++i)
 		{
-			if (str[i] == '\0' && _pStr[j] == '\0')
+			if (j == _StrLength || (str[i] == '\0' && _pStr[j] == '\0'))
 			{
 				return true;
 			}
@@ -2083,5 +2083,5 @@ bool spvgentwo::compareLiteralString(const char* _pStr, Instruction::Iterator _b
 			}
 		}
 	};
-	return true;
+	return j == _StrLength; // string terminator was not found
 }
\ No newline at end of file
-- 
2.43.0


From 1b135a73e221846b8a0888e65ad20a6dcb902df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:01 +0000
Subject: [PATCH 18/92] fix: refuse to write references to instructions without
 an id

---
 lib/source/Operand.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/lib/source/Operand.cpp b/lib/source/Operand.cpp
index 740c014..a97914a 100644
--- a/lib/source/Operand.cpp
+++ b/lib/source/Operand.cpp
@@ -3,18 +3,27 @@
 #include "spvgentwo/Instruction.h"
 #include "spvgentwo/BasicBlock.h"
 
+namespace
+{
+	// an id that was never assigned (to an instruction which is not part of the module) can't be referenced
+	bool writeId(spvgentwo::IWriter& _writer, const spvgentwo::spv::Id _id)
+	{
+		return _id != spvgentwo::InvalidId && _writer.put(static_cast<unsigned int>(_id));
+	}
+}
+
 bool spvgentwo::Operand::write(IWriter& _writer) const
 {
 	switch (type)
 	{
 	case Type::Instruction:
-		return _writer.put(static_cast<unsigned int>(instruction->getResultId()));
+		return writeId(_writer, instruction->getResultId());
 	case Type::BranchTarget:
-		return _writer.put(static_cast<unsigned int>(branchTarget->getLabel()->getResultId()));
+		return writeId(_writer, branchTarget->getLabel()->getResultId());
 	case Type::Literal:
 		return _writer.put(literal.value);
 	case Type::Id:
-		return id != InvalidId && _writer.put(static_cast<unsigned int>(id));
+		return writeId(_writer, id);
 	default:
 		return false;
 	}
-- 
2.43.0


From 0f8a1c6fdc3ebde231c47feb6f7fdbe56925750b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:12 +0000
Subject: [PATCH 19/92] fix: reject instructions whose required operands or
 string terminator are missing

---
 lib/source/Instruction.cpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index b987c2d..4986d17 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -337,11 +337,6 @@ bool spvgentwo::Instruction::readOperands(IReader& _reader, const Grammar& _gram
 
 	m_Operation = _op;
 
-	if (_operandCount == 0u)
-	{
-		return true; // nothing left to do
-	}
-
 	const Grammar::Instruction* info = _grammar.getInfo(static_cast<unsigned int>(m_Operation));
 
 	if (info == nullptr)
@@ -356,8 +351,9 @@ bool spvgentwo::Instruction::readOperands(IReader& _reader, const Grammar& _gram
 	auto parseLiteralString = [&](unsigned int& _operands) -> bool
 	{
 		unsigned int word{ 0u };
-		while (_operands-- > 0u)
+		while (_operands > 0u)
 		{
+			--_operands;
 			if (_reader.get(word) == false)
 			{
 				getModule()->logError("Unexpected end of instruction stream for %s", info->name);
@@ -371,13 +367,14 @@ bool spvgentwo::Instruction::readOperands(IReader& _reader, const Grammar& _gram
 			}
 		}
 
-		return true;
+		getModule()->logError("Literal string of %s is not terminated", info->name);
+		return false;
 	};
 
 	auto parseId = [&](unsigned int& _operands) -> bool
 	{
 		unsigned int word{ 0u };
-		if (_reader.get(word) == false)
+		if (_operands == 0u || _reader.get(word) == false)
 		{
 			getModule()->logError("Unexpected end of instruction stream for %s", info->name);
 			return false;
@@ -390,7 +387,7 @@ bool spvgentwo::Instruction::readOperands(IReader& _reader, const Grammar& _gram
 	auto parseLiteral = [&](unsigned int& _operands) -> bool
 	{
 		unsigned int word{ 0u };
-		if (_reader.get(word) == false)
+		if (_operands == 0u || _reader.get(word) == false)
 		{
 			getModule()->logError("Unexpected end of instruction stream for %s", info->name);
 			return false;
-- 
2.43.0


From dbdec9de979b04bc1fe726f7893731ef9330da19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:19 +0000
Subject: [PATCH 20/92] fix: reject array types whose length is not an integer
 constant

---
 lib/source/Module.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index a4d0b47..dcf1225 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -955,7 +955,8 @@ bool spvgentwo::Module::reconstructTypeAndConstantInfo(IAllocator* _pAllocator)
 				t.Member(sub); // element type
 
 				Instruction* pConstInstr = (++it)->getInstruction();
-				if ( pConstInstr == nullptr || pConstInstr->getType()->isInt() == false)
+				const Type* pLengthType = pConstInstr != nullptr ? pConstInstr->getType() : nullptr;
+				if (pLengthType == nullptr || pLengthType->isInt() == false)
 				{
 					logError("Array length constant not found or invalid type");
 					success = false;
@@ -963,7 +964,7 @@ bool spvgentwo::Module::reconstructTypeAndConstantInfo(IAllocator* _pAllocator)
 				}
 
 				auto cit = pConstInstr->getFirstActualOperand();
-				if (cit->isLiteral())
+				if (cit != nullptr && cit->isLiteral())
 				{
 					t.setArrayLength(cit->literal); // array length
 				}
-- 
2.43.0


From 7a6600d684489046e3ade531ac4406e6434098e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:19 +0000
Subject: [PATCH 21/92] fix: reject instructions with an impossible word count

---
 lib/source/BasicBlock.cpp | 1 +
 lib/source/Function.cpp   | 4 +++-
 lib/source/Module.cpp     | 1 +
 3 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/source/BasicBlock.cpp b/lib/source/BasicBlock.cpp
index 6400a62..22136f9 100644
--- a/lib/source/BasicBlock.cpp
+++ b/lib/source/BasicBlock.cpp
@@ -135,6 +135,7 @@ bool spvgentwo::BasicBlock::read(IReader& _reader, const Grammar& _grammar)
 	while (_reader.get(word))
 	{
 		const spv::Op op = getOperation(word);
+		if (getModule()->logError(getOperandCount(word) != 0u, "Invalid word count for operation %u", op) == false) return false;
 		const unsigned int operands = getOperandCount(word) - 1u;
 
 		if (emplace_back(this, spv::Op::OpNop).readOperands(_reader, _grammar, op, operands) == false)
diff --git a/lib/source/Function.cpp b/lib/source/Function.cpp
index 583abed..9e582ef 100644
--- a/lib/source/Function.cpp
+++ b/lib/source/Function.cpp
@@ -80,6 +80,7 @@ bool spvgentwo::Function::read(IReader& _reader, const Grammar& _grammar, Instru
 	while (_reader.get(word))
 	{
 		const spv::Op op = getOperation(word);
+		if (m_pModule->logError(getOperandCount(word) != 0u, "Invalid word count for operation %u", op) == false) return false;
 		const unsigned int operands = getOperandCount(word) - 1u;
 
 		switch (op)
@@ -88,10 +89,11 @@ bool spvgentwo::Function::read(IReader& _reader, const Grammar& _grammar, Instru
 			if (m_Parameters.emplace_back(this, spv::Op::OpNop).readOperands(_reader, _grammar, op, operands) == false) return false;
 			break;
 		case spv::Op::OpLabel:
+			if (m_pModule->logError(operands == 1u, "Invalid word count for OpLabel") == false) return false;
 			if (addBasicBlock().read(_reader, _grammar) == false) return false;
 			break;
 		case spv::Op::OpFunctionEnd:
-			return true; // FunctionEnd has no operands
+			return m_pModule->logError(operands == 0u, "Invalid word count for OpFunctionEnd"); // FunctionEnd has no operands
 		default:
 			m_pModule->logError("Unexpected op-code for function");
 			return false; // unexpected op code
diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index dcf1225..1e40e45 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -1215,6 +1215,7 @@ bool spvgentwo::Module::read(IReader& _reader, const Grammar& _grammar)
 	while (_reader.get(word))
 	{
 		const spv::Op op = getOperation(word);
+		if (logError(getOperandCount(word) != 0u, "Invalid word count for operation %u", op) == false) return false;
 		const unsigned int operands = getOperandCount(word) - 1u;
 
 		if (spv::IsTypeOp(op) || isSpecOrConstantOp(op))
-- 
2.43.0


From bbb1804a88195667f48dbacc9355770da0dd2fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:20 +0000
Subject: [PATCH 22/92] fix: Module::write keeps the generator of the module

---
 lib/source/Module.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index 1e40e45..9edf549 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -1150,7 +1150,7 @@ bool spvgentwo::Module::write(IWriter& _writer) const
 	// write header
 	if (_writer.put(spv::MagicNumber) == false) return false;
 	if (_writer.put(m_spvVersion) == false) return false;
-	if (_writer.put(GeneratorId) == false) return false;
+	if (_writer.put(m_spvGenerator) == false) return false;
 	if (_writer.put(m_spvBound) == false) return false;
 	if (_writer.put(m_spvSchema) == false) return false;
 
-- 
2.43.0


From 3a07b51614bc1026f86a2e1748da0af1a04e3ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:20 +0000
Subject: [PATCH 23/92] fix: read the parameters of combined operand masks

---
 lib/source/Instruction.cpp | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index 4986d17..3f173ff 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -498,15 +498,32 @@ bool spvgentwo::Instruction::readOperands(IReader& _reader, const Grammar& _gram
 			{
 				const unsigned int enumVal = back().getLiteral(); // last added operand
 
-				if (auto* params = _grammar.getOperandParameters(op.kind, enumVal); params != nullptr)
+				auto parseParameters = [&](unsigned int _value) -> bool
 				{
-					for (const auto& param : *params)
+					if (auto* params = _grammar.getOperandParameters(op.kind, _value); params != nullptr)
 					{
-						if (parseSimpleOps(_operandCount, param) == false)
+						for (const auto& param : *params)
 						{
-							return false;
+							if (parseSimpleOps(_operandCount, param) == false)
+							{
+								return false;
+							}
 						}
 					}
+					return true;
+				};
+
+				if (op.category == Grammar::OperandCategory::BitEnum)
+				{
+					// parameters of the individual flags follow the mask, lowest bit first
+					for (unsigned int bit = 1u; bit != 0u; bit <<= 1u)
+					{
+						if ((enumVal & bit) != 0u && parseParameters(bit) == false) return false;
+					}
+				}
+				else if (parseParameters(enumVal) == false)
+				{
+					return false;
 				}
 			}
 		}
-- 
2.43.0


From 563e76b79b3fc452f6571d4da7074d5e0ff38492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:27 +0000
Subject: [PATCH 24/92] fix: blocks may end with any terminator of the
 instruction set

---
 lib/include/spvgentwo/SpvDefines.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/include/spvgentwo/SpvDefines.h b/lib/include/spvgentwo/SpvDefines.h
index f890847..20e88be 100644
--- a/lib/include/spvgentwo/SpvDefines.h
+++ b/lib/include/spvgentwo/SpvDefines.h
@@ -82,6 +82,10 @@ namespace spvgentwo
 		case spv::Op::OpReturnValue:
 		case spv::Op::OpKill:
 		case spv::Op::OpUnreachable:
+		case spv::Op::OpTerminateInvocation:
+		case spv::Op::OpIgnoreIntersectionKHR:
+		case spv::Op::OpTerminateRayKHR:
+		case spv::Op::OpEmitMeshTasksEXT:
 			return true;
 		default:
 			return false;
-- 
2.43.0


From 405ff419fa1f421b807f6cc81c149ffe6b18b06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:21 +0000
Subject: [PATCH 25/92] fix: hash the number of parts of types and constants

---
 lib/include/spvgentwo/Constant.h | 2 ++
 lib/include/spvgentwo/Type.h     | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/include/spvgentwo/Constant.h b/lib/include/spvgentwo/Constant.h
index 8ddbf4d..e4d0d99 100644
--- a/lib/include/spvgentwo/Constant.h
+++ b/lib/include/spvgentwo/Constant.h
@@ -172,11 +172,13 @@ namespace spvgentwo
 		{
 			_hasher << _const.getOperation();
 			Hasher<Type>()(_const.getType(), _hasher);
+			_hasher << static_cast<unsigned int>(_const.getData().size());
 			for (const auto& l : _const.getData())
 			{
 				_hasher << l;
 			}
 
+			_hasher << static_cast<unsigned int>(_const.getComponents().size()); // tells nested composites apart
 			for (const Constant& component : _const.getComponents())
 			{
 				operator()(component, _hasher);
diff --git a/lib/include/spvgentwo/Type.h b/lib/include/spvgentwo/Type.h
index cf80c54..36795b1 100644
--- a/lib/include/spvgentwo/Type.h
+++ b/lib/include/spvgentwo/Type.h
@@ -668,7 +668,9 @@ namespace spvgentwo
 			_hasher << _type.getImageSamplerAccess();
 			_hasher << _type.getImageFormat();
 			_hasher << _type.getAccessQualifier();
-				
+
+			_hasher << static_cast<unsigned int>(_type.getSubTypes().size()); // tells nested types apart: {{a}, b} and {{a, b}}
+
 			for (const Type& sub : _type.getSubTypes()) {
 				operator()(sub, _hasher); // go deeper
 			}
-- 
2.43.0


From 628a3c894692702749851e3bd83a69daeb3709d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:21 +0000
Subject: [PATCH 26/92] fix: declare and reconstruct pipe types

---
 lib/source/Module.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index 9edf549..eb5989d 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -622,6 +622,9 @@ spvgentwo::Instruction* spvgentwo::Module::addType(const Type& _type, const char
 			pInstr->appendLiterals(_type.getAccessQualifier());
 		}
 		break;
+	case spv::Op::OpTypePipe:
+		pInstr->appendLiterals(_type.getAccessQualifier());
+		break;
 	default:
 		logFatal("Type [%u] not implemented", base);
 		break; // unknown type
@@ -998,6 +1001,9 @@ bool spvgentwo::Module::reconstructTypeAndConstantInfo(IAllocator* _pAllocator)
 				}
 			}
 			break;
+			case spv::Op::OpTypePipe:
+				t.setAccessQualifier(static_cast<spv::AccessQualifier>(it->getLiteral().value));
+				break;
 			default:
 				logError("Type [%u] not implemented", instr.getOperation());
 				success = false;
-- 
2.43.0


From 212351c171fcb6c6186e32d0e81b85542273db6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:21 +0000
Subject: [PATCH 27/92] fix: read the access qualifier of image types

---
 lib/source/Module.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index eb5989d..6366187 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -997,7 +997,7 @@ bool spvgentwo::Module::reconstructTypeAndConstantInfo(IAllocator* _pAllocator)
 
 				if (++it != nullptr)
 				{
-					t.setAccessQualifier(static_cast<spv::AccessQualifier>((++it)->getLiteral().value));
+					t.setAccessQualifier(static_cast<spv::AccessQualifier>(it->getLiteral().value));
 				}
 			}
 			break;
-- 
2.43.0


From f26b54b6b5cf7ad661636854792c6b184af83d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:41 +0000
Subject: [PATCH 28/92] fix: type navigation reports indices outside of the
 composite

---
 lib/include/spvgentwo/Type.h | 23 +++++++++--------------
 lib/source/Instruction.cpp   |  9 ++-------
 lib/source/Type.cpp          | 30 +++++++++++++++++++++---------
 3 files changed, 32 insertions(+), 30 deletions(-)

diff --git a/lib/include/spvgentwo/Type.h b/lib/include/spvgentwo/Type.h
index 36795b1..a227a72 100644
--- a/lib/include/spvgentwo/Type.h
+++ b/lib/include/spvgentwo/Type.h
@@ -389,11 +389,14 @@ namespace spvgentwo
 		// return 1 if type is a scalar, return component count if type is vector, 0 otherwise
 		constexpr unsigned int getScalarOrVectorLength() const { return isScalar() ? 1u : isVector() ? getVectorComponentCount() : 0u; }
 
-		// depth first traversal of type hierarchy using integer indices (static variant), returns the iterator of the last valid type accessed by index
+		// returns the component, element or member with index _i, nullptr if this type has no such part
+		Iterator getSubType(unsigned int _i) const;
+
+		// depth first traversal of type hierarchy using integer indices (static variant), returns nullptr if an index is outside of the composite it is applied to
 		template<class... Indices>
-		Iterator getSubType(unsigned int _i, Indices... _indices) const;
+		Iterator getSubType(unsigned int _i, unsigned int _j, Indices... _indices) const;
 
-		// depth first traversal of type hierarchy using integer indices (dynamic variant), returns the iterator of the last valid type accessed by index
+		// depth first traversal of type hierarchy using integer indices (dynamic variant), returns nullptr if there are no indices or an index is outside of the composite it is applied to
 		Iterator getSubType(const List<unsigned int>& _indices) const;
 
 		// creates a new empty type from this types allocator
@@ -680,19 +683,11 @@ namespace spvgentwo
 	};
 
 	template<class ...Indices>
-	inline List<Type>::Iterator Type::getSubType(unsigned int _i, Indices ..._indices) const
+	inline List<Type>::Iterator Type::getSubType(unsigned int _i, unsigned int _j, Indices ..._indices) const
 	{
-		auto it = m_subTypes.begin() + (_i < m_subTypes.size() ? _i : 0u);
-
-		if constexpr (sizeof...(_indices) > 0)
-		{
-			if (it != nullptr && it->m_subTypes.empty() == false)
-			{
-				return it->getSubType(_indices...);
-			}
-		}
+		auto it = getSubType(_i);
 
-		return it;
+		return it != nullptr ? it->getSubType(_j, _indices...) : it;
 	}
 
 	template<class Prop, class ...Props>
diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index 3f173ff..c7ca4c2 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -1076,7 +1076,7 @@ spvgentwo::Instruction* spvgentwo::Instruction::opAccessChain(Instruction* _pBas
 
 	auto it = pBaseType->getSubType(0u); // base is a pointer type, so 0 is used to get the inner type
 
-	if (it != nullptr)
+	if (it != nullptr && _indices.empty() == false)
 	{
 		it = it->getSubType(_indices);
 	}
@@ -1219,12 +1219,7 @@ spvgentwo::Instruction* spvgentwo::Instruction::opCompositeExtractDynamic(Instru
 		return error();
 	}
 
-	auto it = pBaseType->getSubType(0u);
-
-	if (it != nullptr)
-	{
-		it = it->getSubType(_indices);
-	}
+	auto it = pBaseType->getSubType(_indices);
 
 	if (it != nullptr)
 	{
diff --git a/lib/source/Type.cpp b/lib/source/Type.cpp
index 9072a08..6af1101 100644
--- a/lib/source/Type.cpp
+++ b/lib/source/Type.cpp
@@ -688,22 +688,34 @@ spvgentwo::Type& spvgentwo::Type::Member(const Type* _pSubType)
 	}
 }
 
+spvgentwo::List<spvgentwo::Type>::Iterator spvgentwo::Type::getSubType(unsigned int _i) const
+{
+	switch (m_Type)
+	{
+	case spv::Op::OpTypeVector:
+	case spv::Op::OpTypeMatrix:
+	case spv::Op::OpTypeArray: // all parts have the same type
+		return _i < m_VecComponentCount ? m_subTypes.begin() : m_subTypes.end();
+	case spv::Op::OpTypeRuntimeArray:
+		return m_subTypes.begin();
+	default:
+		return m_subTypes.begin() + _i;
+	}
+}
+
 spvgentwo::List<spvgentwo::Type>::Iterator spvgentwo::Type::getSubType(const List<unsigned int>& _indices) const
 {
-	auto it = m_subTypes.begin();
+	Iterator it(nullptr);
+	const Type* pType = this;
 
 	for (auto i : _indices)
 	{
-		auto prev = it;
-		it = it + i;
-		if (it != nullptr)
-		{
-			it = it->getSubTypes().begin();
-		}
-		else
+		it = pType->getSubType(i);
+		if (it == nullptr)
 		{
-			return prev;
+			return it;
 		}
+		pType = it.operator->();
 	}
 
 	return it;
-- 
2.43.0


From 59df766a7343d6890d7cfa97805e5afff3a05810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:32 +0000
Subject: [PATCH 29/92] fix: types can be assigned from their own parts and to
 types without allocator

---
 lib/source/Type.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/source/Type.cpp b/lib/source/Type.cpp
index 6af1101..bbd75d2 100644
--- a/lib/source/Type.cpp
+++ b/lib/source/Type.cpp
@@ -52,7 +52,7 @@ spvgentwo::Type& spvgentwo::Type::operator=(Type&& _other) noexcept
 {
 	if (this == &_other) return *this;
 
-	m_subTypes = stdrep::move(_other.m_subTypes);
+	List<Type> subTypes(stdrep::move(_other.m_subTypes)); // _other might be a part of this type
 
 	m_Type = _other.m_Type;
 	m_IntSign = _other.m_IntSign;
@@ -65,12 +65,15 @@ spvgentwo::Type& spvgentwo::Type::operator=(Type&& _other) noexcept
 	m_StorageClass = _other.m_StorageClass;
 	m_AccessQualifier = _other.m_AccessQualifier;
 
+	m_subTypes = stdrep::move(subTypes);
+
 	return *this;
 }
 spvgentwo::Type& spvgentwo::Type::operator=(const Type& _other)
 {
 	if (this == &_other) return *this;
-	m_subTypes = _other.m_subTypes;
+	List<Type> subTypes(m_subTypes.getAllocator() != nullptr ? m_subTypes.getAllocator() : _other.m_subTypes.getAllocator());
+	subTypes = _other.m_subTypes; // _other might be a part of this type
 
 	m_Type = _other.m_Type;
 	m_IntSign = _other.m_IntSign;
@@ -83,6 +86,8 @@ spvgentwo::Type& spvgentwo::Type::operator=(const Type& _other)
 	m_StorageClass = _other.m_StorageClass;
 	m_AccessQualifier = _other.m_AccessQualifier;
 
+	m_subTypes = stdrep::move(subTypes);
+
 	return *this;
 }
 
-- 
2.43.0


From b7d6724609d59999d801208d55b66fbc6b6c5870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:23 +0000
Subject: [PATCH 30/92] fix: boolean constants keep their value and empty names
 their text when read

---
 lib/source/Module.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index 6366187..56575f6 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -1031,11 +1031,15 @@ bool spvgentwo::Module::reconstructTypeAndConstantInfo(IAllocator* _pAllocator)
 			switch (instr.getOperation())
 			{
 			case spv::Op::OpConstantNull:
+				break; // nothing to do
 			case spv::Op::OpConstantTrue:
 			case spv::Op::OpSpecConstantTrue:
+				c.addData(true); // same data as Constant::make
+				break;
 			case spv::Op::OpConstantFalse:
 			case spv::Op::OpSpecConstantFalse:
-				break; // nothing to do
+				c.addData(false);
+				break;
 			case spv::Op::OpConstant:
 			case spv::Op::OpSpecConstant:
 			case spv::Op::OpConstantSampler:
@@ -1138,7 +1142,8 @@ bool spvgentwo::Module::reconstructNames(IAllocator* _pAllocator)
 			continue;
 		}
 
-		String& name = m_NameLookup.emplace(target, MemberName{ _pAllocator != nullptr ? _pAllocator : m_pAllocator, memberIndex }).kv.value.name;
+		// start out with an empty string, an empty name is still a name
+		String& name = m_NameLookup.emplace(target, MemberName{ String(_pAllocator != nullptr ? _pAllocator : m_pAllocator, ""), memberIndex }).kv.value.name;
 
 		getLiteralString(name, it.next(), instr.end());
 
-- 
2.43.0


From 50619c7467e791de375045f55f3b496333f5a329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:32 +0000
Subject: [PATCH 31/92] fix: moving a module keeps its generator

---
 lib/source/Module.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index 56575f6..22d7c1c 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -59,6 +59,7 @@ spvgentwo::Module::Module(Module&& _other) noexcept:
 	m_pLogger(_other.m_pLogger),
 	m_pTypeInferenceAndVailation(_other.m_pTypeInferenceAndVailation),
 	m_spvVersion(_other.m_spvVersion),
+	m_spvGenerator(_other.m_spvGenerator),
 	m_spvBound(_other.m_spvBound),
 	m_spvSchema(_other.m_spvSchema),
 	m_Functions(stdrep::move(_other.m_Functions)),
@@ -94,6 +95,7 @@ spvgentwo::Module& spvgentwo::Module::operator=(Module&& _other) noexcept
 	m_pLogger = _other.m_pLogger;
 	m_pTypeInferenceAndVailation = _other.m_pTypeInferenceAndVailation;
 	m_spvVersion = _other.m_spvVersion;
+	m_spvGenerator = _other.m_spvGenerator;
 	m_spvBound = _other.m_spvBound;
 	m_spvSchema = _other.m_spvSchema;
 	m_Functions = stdrep::move(_other.m_Functions);
-- 
2.43.0


From 864f97e996840a148d4f8744f3f0e29c7e8bf9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:44 +0000
Subject: [PATCH 32/92] fix: parameters and module follow a moved function

---
 lib/include/spvgentwo/Instruction.h |  1 +
 lib/source/Function.cpp             | 18 ++++++++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/lib/include/spvgentwo/Instruction.h b/lib/include/spvgentwo/Instruction.h
index 850af2b..774262c 100644
--- a/lib/include/spvgentwo/Instruction.h
+++ b/lib/include/spvgentwo/Instruction.h
@@ -19,6 +19,7 @@ namespace spvgentwo
 	{
 		friend class Module;
 		friend class BasicBlock;
+		friend class Function;
 
 	public:
 		enum class ParentType
diff --git a/lib/source/Function.cpp b/lib/source/Function.cpp
index 9e582ef..87987b3 100644
--- a/lib/source/Function.cpp
+++ b/lib/source/Function.cpp
@@ -28,6 +28,11 @@ spvgentwo::Function::Function(Module* _pModule, Function&& _other) noexcept :
 	{
 		bb.m_pFunction = this;
 	}
+
+	for (Instruction& param : m_Parameters)
+	{
+		param.m_parent.pFunction = this;
+	}
 }
 
 spvgentwo::Function::~Function()
@@ -45,11 +50,24 @@ spvgentwo::Function& spvgentwo::Function::operator=(Function&& _other) noexcept
 		bb.m_pFunction = this;
 	}
 
+	if (m_pModule == nullptr) // default constructed function
+	{
+		m_pModule = _other.m_pModule;
+		m_Function.setParent(this);
+		m_FunctionEnd.setParent(this);
+		m_FunctionEnd.setOperation(spv::Op::OpFunctionEnd);
+	}
+
 	m_Function = stdrep::move(_other.m_Function);
 	//m_FunctionEnd(this, spv::Op::OpFunctionEnd), // no need to move
 	m_FunctionType = stdrep::move(_other.m_FunctionType);
 	m_Parameters = stdrep::move(_other.m_Parameters);
 
+	for (Instruction& param : m_Parameters)
+	{
+		param.m_parent.pFunction = this;
+	}
+
 	return *this;
 }
 
-- 
2.43.0


From 37beb9d389961aefef7a6e5104a33ffcea0db2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:29 +0000
Subject: [PATCH 33/92] fix: every variable an instruction uses becomes part of
 the interface

---
 lib/source/Function.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lib/source/Function.cpp b/lib/source/Function.cpp
index 87987b3..d313923 100644
--- a/lib/source/Function.cpp
+++ b/lib/source/Function.cpp
@@ -400,7 +400,6 @@ void spvgentwo::collectReferencedVariables(const Function& _func, List<Operand>&
 					{
 						_outVarInstr.emplace_back(pArg);
 					}
-					break;
 				}
 			}
 		}
-- 
2.43.0


From 32cca684a8e46ee7147d80c9351f1af9dbb0b72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:55 +0000
Subject: [PATCH 34/92] fix: entry points report the name and execution model
 they were created with

---
 lib/include/spvgentwo/EntryPointTemplate.inl | 3 ++-
 lib/source/EntryPoint.cpp                    | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/include/spvgentwo/EntryPointTemplate.inl b/lib/include/spvgentwo/EntryPointTemplate.inl
index 6a86a7a..c3625cb 100644
--- a/lib/include/spvgentwo/EntryPointTemplate.inl
+++ b/lib/include/spvgentwo/EntryPointTemplate.inl
@@ -6,7 +6,8 @@ namespace spvgentwo
 	inline EntryPoint::EntryPoint(Module* _pModule, const spv::ExecutionModel _model, const char* _pEntryPointName, const Flag<spv::FunctionControlMask> _control, Instruction* _pReturnType, TypeInstr* ..._paramTypeInstructions) :
 		Function(_pModule, _pEntryPointName, _control, _pReturnType, _paramTypeInstructions...),
 		m_EntryPoint(this, spv::Op::OpNop),
-		m_ExecutionModel(_model)
+		m_ExecutionModel(_model),
+		m_nameStorage(_pModule->getAllocator(), _pEntryPointName)
 	{
 		m_isEntryPoint = true;
 		m_EntryPoint.opEntryPoint(_model, &m_Function, _pEntryPointName);
diff --git a/lib/source/EntryPoint.cpp b/lib/source/EntryPoint.cpp
index 1102789..d199fdb 100644
--- a/lib/source/EntryPoint.cpp
+++ b/lib/source/EntryPoint.cpp
@@ -50,6 +50,7 @@ spvgentwo::Instruction* spvgentwo::EntryPoint::finalize(const spv::ExecutionMode
 	{
 		m_EntryPoint.opEntryPoint(_model, &m_Function, _pEntryPointName);
 		m_nameStorage = _pEntryPointName;
+		m_ExecutionModel = _model;
 	}
 
 	return pFunc;
-- 
2.43.0


From 0078a1d9989b5143b270d847da158a9bb2311c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:00 +0000
Subject: [PATCH 35/92] fix: branching to a block that is still empty is
 validated without reading past its end

---
 lib/source/TypeInferenceAndValiation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/source/TypeInferenceAndValiation.cpp b/lib/source/TypeInferenceAndValiation.cpp
index d40293f..e5709bb 100644
--- a/lib/source/TypeInferenceAndValiation.cpp
+++ b/lib/source/TypeInferenceAndValiation.cpp
@@ -558,7 +558,7 @@ bool spvgentwo::ITypeInferenceAndVailation::validateOperands(const spvgentwo::In
 				module->logError("Unassigned branchtarget operand (nullptr)");
 				return false;
 			}
-			else if (&op.branchTarget->front() == &_instr)
+			else if (op.branchTarget->empty() == false && &op.branchTarget->front() == &_instr)
 			{
 				module->logError("Recursive branch target instruction operand");
 				return false;
-- 
2.43.0


From 4f76c0fa01e70f1b3595d4a1b633048a21c37708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:37 +0000
Subject: [PATCH 36/92] fix: entry point interfaces are collected for the
 version the module ends up with

---
 lib/source/Module.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index 22d7c1c..231e8a2 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -1178,16 +1178,18 @@ bool spvgentwo::Module::write(IWriter& _writer) const
 
 spvgentwo::spv::Id spvgentwo::Module::finalize( const Grammar* _pGrammar )
 {
-	finalizeEntryPoints();
+	const spv::Id id = assignIDs( _pGrammar ); // overwrites m_spvBound and might raise m_spvVersion
 
-	return assignIDs( _pGrammar ); // overwrites m_spvBound
+	finalizeEntryPoints(); // depends on the version
+
+	return id;
 }
 
 bool spvgentwo::Module::finalizeAndWrite(IWriter& _writer, const Grammar* _pGrammar)
 {
-	finalizeEntryPoints();
+	assignIDs(_pGrammar); // overwrites m_spvBound and might raise m_spvVersion
 
-	assignIDs(_pGrammar); // overwrites m_spvBound
+	finalizeEntryPoints(); // depends on the version
 
 	return write(_writer);
 }
-- 
2.43.0


From 25168806005ad107bb2e95477fa1dac36bd8d44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:37 +0000
Subject: [PATCH 37/92] fix: the second base capability is declared, too

---
 lib/source/Module.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index 231e8a2..066df0e 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -322,7 +322,7 @@ void spvgentwo::Module::addCapability(spv::Capability _capability, bool _addDepe
 		}
 		if (cap.secondary != spv::Capability::Max)
 		{
-			addCapability(cap.primary, true);
+			addCapability(cap.secondary, true);
 		}
 	}
 
-- 
2.43.0


From dfa8e4c7e557a2795e3ac3ee3dacbc9178ea9a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:37 +0000
Subject: [PATCH 38/92] fix: non-uniform indexing capabilities imply both of
 their base capabilities

---
 lib/include/spvgentwo/SpvDefines.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/include/spvgentwo/SpvDefines.h b/lib/include/spvgentwo/SpvDefines.h
index 20e88be..2216253 100644
--- a/lib/include/spvgentwo/SpvDefines.h
+++ b/lib/include/spvgentwo/SpvDefines.h
@@ -393,9 +393,9 @@ namespace spvgentwo
 		case spv::Capability::SampledImageArrayNonUniformIndexing: return spv::Capability::ShaderNonUniform;
 		case spv::Capability::StorageBufferArrayNonUniformIndexing: return spv::Capability::ShaderNonUniform;
 		case spv::Capability::StorageImageArrayNonUniformIndexing: return spv::Capability::ShaderNonUniform;
-		case spv::Capability::InputAttachmentArrayNonUniformIndexing: return spv::Capability::ShaderNonUniform;
-		case spv::Capability::UniformTexelBufferArrayNonUniformIndexing: return spv::Capability::ShaderNonUniform;
-		case spv::Capability::StorageTexelBufferArrayNonUniformIndexing: return spv::Capability::ShaderNonUniform;
+		case spv::Capability::InputAttachmentArrayNonUniformIndexing: return { spv::Capability::InputAttachment, spv::Capability::ShaderNonUniform };
+		case spv::Capability::UniformTexelBufferArrayNonUniformIndexing: return { spv::Capability::SampledBuffer, spv::Capability::ShaderNonUniform };
+		case spv::Capability::StorageTexelBufferArrayNonUniformIndexing: return { spv::Capability::ImageBuffer, spv::Capability::ShaderNonUniform };
 		case spv::Capability::RayTracingNV: return spv::Capability::Shader;
 		//case spv::Capability::VulkanMemoryModel:
 		//case spv::Capability::VulkanMemoryModelDeviceScope:
-- 
2.43.0


From 930d32d93411269728e45f20f953f2b32a867d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:00 +0000
Subject: [PATCH 39/92] fix: an empty branch of an If is terminated, too

---
 lib/include/spvgentwo/BasicBlockTemplate.inl | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/include/spvgentwo/BasicBlockTemplate.inl b/lib/include/spvgentwo/BasicBlockTemplate.inl
index 5832e83..7cbccd9 100644
--- a/lib/include/spvgentwo/BasicBlockTemplate.inl
+++ b/lib/include/spvgentwo/BasicBlockTemplate.inl
@@ -19,11 +19,11 @@ namespace spvgentwo
 		_false(falseBB);
 
 		// check if user didnt exit controlflow via kill or similar
-		if (trueBB.empty() == false && trueBB.back().isTerminator() == false)
+		if (trueBB.getTerminator() == nullptr)
 		{
 			trueBB->opBranch(&mergeBB);
 		}
-		if (falseBB.empty() == false && falseBB.back().isTerminator() == false)
+		if (falseBB.getTerminator() == nullptr)
 		{
 			falseBB->opBranch(&mergeBB);
 		}
@@ -45,7 +45,7 @@ namespace spvgentwo
 		_true(trueBB);
 
 		// check if user didnt exit controlflow via kill or similar
-		if (trueBB.empty() == false && trueBB.back().isTerminator() == false)
+		if (trueBB.getTerminator() == nullptr)
 		{
 			trueBB->opBranch(&mergeBB);		
 		}
-- 
2.43.0


From 46585c4c276073d82a2e2e6472869f44044a42c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:00 +0000
Subject: [PATCH 40/92] fix: loops do not terminate their blocks twice

---
 lib/include/spvgentwo/BasicBlockTemplate.inl | 10 ++++++++--
 lib/source/BasicBlock.cpp                    | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/lib/include/spvgentwo/BasicBlockTemplate.inl b/lib/include/spvgentwo/BasicBlockTemplate.inl
index 7cbccd9..781a6d9 100644
--- a/lib/include/spvgentwo/BasicBlockTemplate.inl
+++ b/lib/include/spvgentwo/BasicBlockTemplate.inl
@@ -79,10 +79,16 @@ namespace spvgentwo
 		condBB->opBranchConditional(pCond, &bodyBB, &mergeBB);
 
 		_body(bodyBB);
-		bodyBB->opBranch(&continueBB); // branch to "increment" / continue block
+		if (bodyBB.getTerminator() == nullptr)
+		{
+			bodyBB->opBranch(&continueBB); // branch to "increment" / continue block
+		}
 
 		_continue(continueBB);
-		continueBB->opBranch(&loop); // back edge to loop merge
+		if (continueBB.getTerminator() == nullptr)
+		{
+			continueBB->opBranch(&loop); // back edge to loop merge
+		}
 
 		return mergeBB;
 	}
diff --git a/lib/source/BasicBlock.cpp b/lib/source/BasicBlock.cpp
index 22136f9..3bc792a 100644
--- a/lib/source/BasicBlock.cpp
+++ b/lib/source/BasicBlock.cpp
@@ -215,8 +215,14 @@ spvgentwo::BasicBlock& spvgentwo::BasicBlock::Loop(Instruction* _pCondition, Bas
 	addInstruction()->opBranch(&condBB);
 
 	condBB->opBranchConditional(_pCondition, &_body, &mergeBB);
-	_body->opBranch(&_continue); // branch to "increment" / continue block
-	_continue->opBranch(this); // back edge to loop merge
+	if (_body.getTerminator() == nullptr)
+	{
+		_body->opBranch(&_continue); // branch to "increment" / continue block
+	}
+	if (_continue.getTerminator() == nullptr)
+	{
+		_continue->opBranch(this); // back edge to loop merge
+	}
 
 	return mergeBB;
 }
-- 
2.43.0


From c98b5ef148566ea71ec8c5fceb91c1426964514c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:00 +0000
Subject: [PATCH 41/92] fix: a loop condition may be a constant or part of the
 loop header

---
 lib/source/BasicBlock.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/source/BasicBlock.cpp b/lib/source/BasicBlock.cpp
index 3bc792a..ecc11b8 100644
--- a/lib/source/BasicBlock.cpp
+++ b/lib/source/BasicBlock.cpp
@@ -209,10 +209,14 @@ spvgentwo::BasicBlock& spvgentwo::BasicBlock::If(Instruction* _pCondition, Basic
 spvgentwo::BasicBlock& spvgentwo::BasicBlock::Loop(Instruction* _pCondition, BasicBlock& _continue, BasicBlock& _body, BasicBlock* _pMergeBlock, const Flag<spv::LoopControlMask> _mask)
 {
 	BasicBlock& mergeBB = _pMergeBlock != nullptr ? *_pMergeBlock : m_pFunction->addBasicBlock("LoopMerge");
-	BasicBlock& condBB = *_pCondition->getBasicBlock();
+	// the condition might be a constant or part of this block, in this case there is no separate condition block to branch to
+	BasicBlock& condBB = _pCondition->getBasicBlock() != nullptr ? *_pCondition->getBasicBlock() : *this;
 
 	addInstruction()->opLoopMerge(&mergeBB, &_continue, _mask);
-	addInstruction()->opBranch(&condBB);
+	if (&condBB != this)
+	{
+		addInstruction()->opBranch(&condBB);
+	}
 
 	condBB->opBranchConditional(_pCondition, &_body, &mergeBB);
 	if (_body.getTerminator() == nullptr)
-- 
2.43.0


From ddef5022199d9dfc0828fe9caa4f2905e6da4f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:34 +0000
Subject: [PATCH 42/92] fix: uses of types as result type are found, each
 instruction is reported once

---
 lib/source/Module.cpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index 066df0e..8301a8e 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -1492,17 +1492,23 @@ void spvgentwo::Module::gatherUses(const Instruction* _pInstr, List<Instruction*
 {
 	auto gather = [_pInstr, _pReplacement, &_outUses](Instruction& _instr)
 	{
-		for (auto it = _instr.getFirstActualOperand(), end = _instr.end(); it != end; ++it)
+		bool used = false;
+		for (Operand& op : _instr) // the result type is an operand, too
 		{
-			if (*it == _pInstr)
+			if (op == _pInstr)
 			{
-				_outUses.emplace_back(&_instr);
+				used = true;
 				if (_pReplacement != nullptr)
 				{
-					*it = _pReplacement;				
+					op = _pReplacement;
 				}
 			}
 		}
+
+		if (used)
+		{
+			_outUses.emplace_back(&_instr);
+		}
 	};
 
 	iterateInstructions(gather);
@@ -1517,11 +1523,11 @@ void spvgentwo::Module::replaceUses(const Instruction* _pInstr, Instruction* _pR
 
 	auto replace = [_pInstr, _pReplacement](Instruction& _instr)
 	{
-		for (auto it = _instr.getFirstActualOperand(), end = _instr.end(); it != end; ++it)
+		for (Operand& op : _instr) // the result type is an operand, too
 		{
-			if (*it == _pInstr)
+			if (op == _pInstr)
 			{
-				*it = _pReplacement;
+				op = _pReplacement;
 			}
 		}
 	};
-- 
2.43.0


From a78ea95c99ad1ca0222c5e06bb369690cbe96faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:34 +0000
Subject: [PATCH 43/92] fix: a removed instruction is forgotten by the lookups
 of the module

---
 lib/source/BasicBlock.cpp |  1 +
 lib/source/Module.cpp     | 47 +++++++++++++++++++++++++++++----------
 2 files changed, 36 insertions(+), 12 deletions(-)

diff --git a/lib/source/BasicBlock.cpp b/lib/source/BasicBlock.cpp
index ecc11b8..d9b5792 100644
--- a/lib/source/BasicBlock.cpp
+++ b/lib/source/BasicBlock.cpp
@@ -161,6 +161,7 @@ bool spvgentwo::BasicBlock::remove(const Instruction* _pInstr)
 		{
 			if(it.operator->() == _pInstr)
 			{
+				getModule()->removeFromLookupMaps(_pInstr);
 				erase(it);
 				return true;
 			}
diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index 8301a8e..6c0f246 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -1537,23 +1537,44 @@ void spvgentwo::Module::replaceUses(const Instruction* _pInstr, Instruction* _pR
 
 void spvgentwo::Module::removeFromLookupMaps(const Instruction* _pInstr)
 {
-	if (auto itt = m_InstrToType.find(_pInstr); itt != m_InstrToType.end())
+	auto removeFrom = [this, _pInstr](auto& _instrToInfo, auto& _infoToInstr)
 	{
-		if(auto tti = m_TypeToInstr.find(*itt->value); tti != m_TypeToInstr.end())
+		auto it = _instrToInfo.find(_pInstr);
+		if (it == _instrToInfo.end())
 		{
-			m_TypeToInstr.erase(tti);
+			return;
 		}
-		m_InstrToType.erase(itt);
-	}
 
-	if (auto itc = m_InstrToConstant.find(_pInstr); itc != m_InstrToConstant.end())
-	{
-		if (auto cti = m_ConstantToInstr.find(*itc->value); cti != m_ConstantToInstr.end())
+		// equal declarations (spec constants, types of read modules) share the same info
+		const auto* pInfo = it->value;
+		Instruction* pOther = nullptr;
+		for (Instruction& instr : m_TypesAndConstants)
 		{
-			m_ConstantToInstr.erase(cti);
+			const Instruction* pInstr = &instr;
+			if (auto* ppInfo = _instrToInfo.get(pInstr); pInstr != _pInstr && ppInfo != nullptr && *ppInfo == pInfo)
+			{
+				pOther = &instr;
+				break;
+			}
 		}
-		m_InstrToConstant.erase(itc);
-	}
+
+		_instrToInfo.erase(it);
+
+		if (auto info = _infoToInstr.find(*pInfo); info != _infoToInstr.end())
+		{
+			if (pOther == nullptr)
+			{
+				_infoToInstr.erase(info);
+			}
+			else if (info->value == _pInstr)
+			{
+				info->value = pOther;
+			}
+		}
+	};
+
+	removeFrom(m_InstrToType, m_TypeToInstr);
+	removeFrom(m_InstrToConstant, m_ConstantToInstr);
 
 	m_NameLookup.eraseRange(_pInstr);
 }
@@ -1565,11 +1586,12 @@ bool spvgentwo::Module::remove(const Instruction* _pInstr)
 		return false;
 	}
 
-	auto erase = [_pInstr](List<Instruction>& container) -> bool
+	auto erase = [this, _pInstr](List<Instruction>& container) -> bool
 	{
 		auto it = container.find_if([_pInstr](const Instruction& _instr) {return &_instr == _pInstr; });
 		if (it != container.end())
 		{
+			removeFromLookupMaps(_pInstr);
 			container.erase(it);
 			return true;
 		}
@@ -1600,6 +1622,7 @@ bool spvgentwo::Module::remove(const Instruction* _pInstr)
 		{
 			if (&value == _pInstr) 
 			{
+				removeFromLookupMaps(_pInstr);
 				m_ExtInstrImport.erase(m_ExtInstrImport.find(key));
 				return true;
 			}
-- 
2.43.0


From 74f2fccbc99e40e9449ae41a4d890e7131825aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:34 +0000
Subject: [PATCH 44/92] fix: the lookups keep their own copy of types and
 constants of manually added instructions

---
 lib/source/Module.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index 6c0f246..5cf02af 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -673,8 +673,8 @@ spvgentwo::Instruction* spvgentwo::Module::addTypeInstr(const Type* _pType)
 
 	if (_pType != nullptr)
 	{
-		m_TypeToInstr.emplaceUnique(*_pType, instr);
-		m_InstrToType.emplaceUnique(instr, _pType);
+		auto& node = m_TypeToInstr.emplaceUnique(*_pType, instr);
+		m_InstrToType.emplaceUnique(instr, &node.kv.key);
 	}
 
 	return instr;
@@ -686,8 +686,8 @@ spvgentwo::Instruction* spvgentwo::Module::addConstantInstr(const Constant* _pCo
 
 	if (_pConstant != nullptr)
 	{
-		m_ConstantToInstr.emplaceUnique(*_pConstant, instr);
-		m_InstrToConstant.emplaceUnique(instr, _pConstant);
+		auto& node = m_ConstantToInstr.emplaceUnique(*_pConstant, instr);
+		m_InstrToConstant.emplaceUnique(instr, &node.kv.key);
 	}
 
 	return instr;
-- 
2.43.0


From 903f655296bacb06fefe0fdca89259bd58e4256e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:34 +0000
Subject: [PATCH 45/92] fix: names and decorations of instructions inside a
 removed function or block are removed, too

---
 lib/include/spvgentwo/Module.h |  6 +++++
 lib/source/Function.cpp        |  1 +
 lib/source/Module.cpp          | 41 ++++++++++++++++++++++++++++++++++
 3 files changed, 48 insertions(+)

diff --git a/lib/include/spvgentwo/Module.h b/lib/include/spvgentwo/Module.h
index 5251822..1875e87 100644
--- a/lib/include/spvgentwo/Module.h
+++ b/lib/include/spvgentwo/Module.h
@@ -347,6 +347,12 @@ namespace spvgentwo
 		// remove _pInstr from type/constant and name lookup maps
 		void removeFromLookupMaps(const Instruction* _pInstr);
 
+		// remove names and decorations of _pInstr and its entries in the lookup maps
+		void removeAnnotations(const Instruction* _pInstr);
+
+		// remove names and decorations of the label and all instructions of _block
+		void removeAnnotations(const BasicBlock& _block);
+
 		// remove _pInstr if it is homed in this module, its functions and basic blocks, returns true if it was removed
 		bool remove(const Instruction* _pInstr);
 
diff --git a/lib/source/Function.cpp b/lib/source/Function.cpp
index d313923..39386f4 100644
--- a/lib/source/Function.cpp
+++ b/lib/source/Function.cpp
@@ -161,6 +161,7 @@ spvgentwo::List<spvgentwo::Instruction*> spvgentwo::Function::remove(const Basic
 	{
 		if (it.operator->() == _pBB)
 		{
+			m_pModule->removeAnnotations(*_pBB);
 			erase(it);
 			found = true;
 			break;
diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index 5cf02af..54d2963 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -230,6 +230,19 @@ spvgentwo::List<spvgentwo::Instruction*> spvgentwo::Module::remove(const Functio
 		return uses;
 	}
 
+	auto forget = [this, _pFunction]()
+	{
+		for (const Instruction& param : _pFunction->getParameters())
+		{
+			removeAnnotations(&param);
+		}
+		for (const BasicBlock& bb : *_pFunction)
+		{
+			removeAnnotations(bb);
+		}
+		removeFromLookupMaps(_pFunction->getFunction());
+	};
+
 	const Instruction* opFunction = _pFunction->getFunction();
 	Instruction* opFunctionReplacement = _pReplacementToCall != nullptr ? _pReplacementToCall->getFunction() : nullptr;
 
@@ -239,6 +252,7 @@ spvgentwo::List<spvgentwo::Instruction*> spvgentwo::Module::remove(const Functio
 	{
 		if (it.operator->() == _pFunction)
 		{
+			forget();
 			m_Functions.erase(it);
 			found = true;
 			break;
@@ -252,6 +266,7 @@ spvgentwo::List<spvgentwo::Instruction*> spvgentwo::Module::remove(const Functio
 		{
 			if (it.operator->() == _pFunction)
 			{
+				forget();
 				m_EntryPoints.erase(it);
 				found = true;
 				break;
@@ -1535,6 +1550,32 @@ void spvgentwo::Module::replaceUses(const Instruction* _pInstr, Instruction* _pR
 	iterateInstructions(replace);
 }
 
+void spvgentwo::Module::removeAnnotations(const Instruction* _pInstr)
+{
+	auto isTarget = [_pInstr](const Instruction& _instr) { return _instr.empty() == false && _instr.front() == _pInstr; };
+
+	for (auto it = m_Names.find_if(isTarget); it != m_Names.end(); it = m_Names.find_if(isTarget))
+	{
+		m_Names.erase(it);
+	}
+	for (auto it = m_Decorations.find_if(isTarget); it != m_Decorations.end(); it = m_Decorations.find_if(isTarget))
+	{
+		m_Decorations.erase(it);
+	}
+
+	removeFromLookupMaps(_pInstr);
+}
+
+void spvgentwo::Module::removeAnnotations(const BasicBlock& _block)
+{
+	removeAnnotations(_block.getLabel());
+
+	for (const Instruction& instr : _block)
+	{
+		removeAnnotations(&instr);
+	}
+}
+
 void spvgentwo::Module::removeFromLookupMaps(const Instruction* _pInstr)
 {
 	auto removeFrom = [this, _pInstr](auto& _instrToInfo, auto& _infoToInstr)
-- 
2.43.0


From 3b7b0bfa6d1d49d15eb0512ff9b1e2eca49dc99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:18 +0000
Subject: [PATCH 46/92] fix: removing a block reports each instruction that
 used it once

---
 lib/source/Function.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/source/Function.cpp b/lib/source/Function.cpp
index 39386f4..2188703 100644
--- a/lib/source/Function.cpp
+++ b/lib/source/Function.cpp
@@ -176,14 +176,20 @@ spvgentwo::List<spvgentwo::Instruction*> spvgentwo::Function::remove(const Basic
 
 	auto gatherUse = [opLabel, _pBB, _pReplacement, &uses](Instruction& instr)
 	{
+		bool used = false;
 		for (auto it = instr.getFirstActualOperand(), end = instr.end(); it != end; ++it)
 		{
 			if (*it == _pBB || *it == opLabel)
 			{
-				uses.emplace_back(&instr);
+				used = true;
 				*it = _pReplacement;
 			}
 		}
+
+		if (used)
+		{
+			uses.emplace_back(&instr);
+		}
 	};
 
 	m_pModule->iterateInstructions(gatherUse);
-- 
2.43.0


From bbb2051b70f7543ddc37c3518a8ac11ba41e5e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:38 +0000
Subject: [PATCH 47/92] fix: only OpDecorate and OpMemberDecorate have a
 decoration literal

---
 common/source/ReflectionHelper.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/common/source/ReflectionHelper.cpp b/common/source/ReflectionHelper.cpp
index 0be9a01..432f23f 100644
--- a/common/source/ReflectionHelper.cpp
+++ b/common/source/ReflectionHelper.cpp
@@ -97,7 +97,7 @@ spvgentwo::spv::Decoration spvgentwo::ReflectionHelper::getSpvDecorationKindFrom
 
 bool spvgentwo::ReflectionHelper::getSpvDecorationAndLiteralFromDecoration(const Instruction* _pInDecoration, spv::Decoration& _outDecoration, unsigned int& _outValue)
 {
-	if (_pInDecoration == nullptr || (*_pInDecoration != spv::Op::OpDecorate && *_pInDecoration == spv::Op::OpMemberDecorate))
+	if (_pInDecoration == nullptr || (*_pInDecoration != spv::Op::OpDecorate && *_pInDecoration != spv::Op::OpMemberDecorate))
 	{
 		return false;
 	}
@@ -146,6 +146,12 @@ unsigned int spvgentwo::ReflectionHelper::getDecorationLiteralFromTarget(spv::De
 	{
 		auto target = decoration.getFirstActualOperand();
 
+		// other decorations (OpDecorateId, OpDecorateString, ...) have no literal
+		if (decoration != spv::Op::OpDecorate && decoration != spv::Op::OpMemberDecorate)
+		{
+			continue;
+		}
+
 		if (target != nullptr && *target == _pTarget)
 		{
 			if (decoration == spv::Op::OpMemberDecorate)
-- 
2.43.0


From d458947c2fd2a9dab864d0abb6d3c7182738f21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:38 +0000
Subject: [PATCH 48/92] fix: decorations without literal are found when no
 value is asked for

---
 common/include/common/ReflectionHelperTemplate.inl | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/common/include/common/ReflectionHelperTemplate.inl b/common/include/common/ReflectionHelperTemplate.inl
index db31638..b0db665 100644
--- a/common/include/common/ReflectionHelperTemplate.inl
+++ b/common/include/common/ReflectionHelperTemplate.inl
@@ -24,16 +24,16 @@ void spvgentwo::ReflectionHelper::getVariablesWithDecorationFunc(const Module& _
 			++it;
 		}
 
-		if (match && it.next() != nullptr)
+		if (match)
 		{
 			if (_pValue != nullptr)
 			{
-				if (*_pValue == it.next()->getLiteral())
+				if (it.next() != nullptr && *_pValue == it.next()->getLiteral())
 				{
 					_func(target->getInstruction());
 				}
 			}
-			else
+			else // decorations without literal match, too
 			{
 				_func(target->getInstruction());
 			}
-- 
2.43.0


From f58c49725853a2ebcba2bf784e054b39fbc29d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:38 +0000
Subject: [PATCH 49/92] fix: local size given by constants without a literal

---
 common/source/ReflectionHelper.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/common/source/ReflectionHelper.cpp b/common/source/ReflectionHelper.cpp
index 432f23f..d3bcba3 100644
--- a/common/source/ReflectionHelper.cpp
+++ b/common/source/ReflectionHelper.cpp
@@ -21,10 +21,11 @@ bool spvgentwo::ReflectionHelper::getLocalSize(const Module& _module, unsigned i
 			{
 				auto getValue = [](const Instruction* instr) -> unsigned int
 				{
-					if (instr == nullptr || instr->isSpecOrConstant() == false)
+					// other constants (OpConstantNull, OpSpecConstantOp, ...) have no literal value
+					if (instr == nullptr || (*instr != spv::Op::OpConstant && *instr != spv::Op::OpSpecConstant))
 						return 0u;
 
-					if(auto it = instr->getFirstActualOperand(); it->isLiteral() )
+					if(auto it = instr->getFirstActualOperand(); it != nullptr && it->isLiteral() )
 					{
 						return it->literal;
 					}
-- 
2.43.0


From 5c2e03511e057ee744b6ad17555465dec4ab4341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:38 +0000
Subject: [PATCH 50/92] fix: descriptor types of arrays of descriptors and of
 images and samplers that share a binding

---
 common/source/VulkanInterop.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/common/source/VulkanInterop.cpp b/common/source/VulkanInterop.cpp
index 6aea573..d73b608 100644
--- a/common/source/VulkanInterop.cpp
+++ b/common/source/VulkanInterop.cpp
@@ -60,7 +60,18 @@ spvgentwo::vk::DescriptorType spvgentwo::vk::getDescriptorTypeFromVariable(const
 		return DescriptorType::VK_DESCRIPTOR_TYPE_MAX_ENUM;
 	}
 
-	const Type& type = ptr->front();
+	// variables may be arrays of descriptors
+	auto getElementType = [](const Type& _ptr) -> const Type&
+	{
+		const Type* element = &_ptr.front();
+		while ((element->isArray() || element->isRuntimeArray()) && element->getSubTypes().empty() == false)
+		{
+			element = &element->front();
+		}
+		return *element;
+	};
+
+	const Type& type = getElementType(*ptr);
 
 	const spv::StorageClass storage = _variable.getStorageClass();
 
@@ -89,8 +100,10 @@ spvgentwo::vk::DescriptorType spvgentwo::vk::getDescriptorTypeFromVariable(const
 				}
 
 				// we found another variable in the same set
-				if (const Type* otherType = _pVar->getType(); _pVar != &_variable && otherType != nullptr && _pVar->getStorageClass() == spv::StorageClass::UniformConstant)
+				if (const Type* otherPtr = _pVar->getType(); _pVar != &_variable && otherPtr != nullptr && otherPtr->isPointer() && otherPtr->getSubTypes().empty() == false && _pVar->getStorageClass() == spv::StorageClass::UniformConstant)
 				{
+					const Type* otherType = &getElementType(*otherPtr);
+
 					// check for [sampler & image] or [image & sampler] variable combo
 					if (((otherType->getType() == spv::Op::OpTypeSampler) && (type.getType() == spv::Op::OpTypeSampledImage || type.getType() == spv::Op::OpTypeImage)) ||
 						((type.getType() == spv::Op::OpTypeSampler) && (otherType->getType() == spv::Op::OpTypeSampledImage || otherType->getType() == spv::Op::OpTypeImage)))
-- 
2.43.0


From 8ce4dba7f520775012d93f5084122c0e7bd88981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:38 +0000
Subject: [PATCH 51/92] fix: sampled images are combined image samplers unless
 they are buffers

---
 common/source/VulkanInterop.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/common/source/VulkanInterop.cpp b/common/source/VulkanInterop.cpp
index d73b608..059e952 100644
--- a/common/source/VulkanInterop.cpp
+++ b/common/source/VulkanInterop.cpp
@@ -130,6 +130,10 @@ spvgentwo::vk::DescriptorType spvgentwo::vk::getDescriptorTypeFromVariable(const
 	{
 	case spv::Op::OpTypeSampler:					return DescriptorType::VK_DESCRIPTOR_TYPE_SAMPLER;
 	case spv::Op::OpTypeSampledImage:
+		if (type.front().getImageDimension() != spv::Dim::Buffer)
+		{
+			return DescriptorType::VK_DESCRIPTOR_TYPE_COMBINED_IMAGE_SAMPLER;
+		}
 		switch (type.front().getImageSamplerAccess())
 		{
 		case SamplerImageAccess::Sampled:			return DescriptorType::VK_DESCRIPTOR_TYPE_UNIFORM_TEXEL_BUFFER;
-- 
2.43.0


From 13c971017288ec4897ed4c20492236033841f041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:53 +0000
Subject: [PATCH 52/92] fix: uniform variables of BufferBlock type are storage
 buffers

---
 common/source/VulkanInterop.cpp | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/common/source/VulkanInterop.cpp b/common/source/VulkanInterop.cpp
index 059e952..3678579 100644
--- a/common/source/VulkanInterop.cpp
+++ b/common/source/VulkanInterop.cpp
@@ -168,7 +168,31 @@ spvgentwo::vk::DescriptorType spvgentwo::vk::getDescriptorTypeFromVariable(const
 	default: // assume this is a buffer
 		switch (storage)
 		{
-		case spv::StorageClass::Uniform:			[[fallthrough]];
+		case spv::StorageClass::Uniform:
+		{
+			// storage buffers were declared as Uniform & BufferBlock before SPIR-V 1.3
+			const Instruction* block = _variable.getResultTypeInstr()->back().getInstruction();
+			while (block != nullptr && (*block == spv::Op::OpTypeArray || *block == spv::Op::OpTypeRuntimeArray))
+			{
+				block = block->getFirstActualOperand()->getInstruction();
+			}
+
+			bool bufferBlock = false;
+			auto check = [&bufferBlock](const Instruction* _pDecoration)
+			{
+				if (ReflectionHelper::getSpvDecorationKindFromDecoration(_pDecoration) == spv::Decoration::BufferBlock)
+				{
+					bufferBlock = true;
+				}
+			};
+			ReflectionHelper::getDecorationsFunc(block, check);
+
+			if (bufferBlock)
+			{
+				return DescriptorType::VK_DESCRIPTOR_TYPE_STORAGE_BUFFER;
+			}
+			return DescriptorType::VK_DESCRIPTOR_TYPE_UNIFORM_BUFFER;
+		}
 		case spv::StorageClass::UniformConstant:	return DescriptorType::VK_DESCRIPTOR_TYPE_UNIFORM_BUFFER;
 		case spv::StorageClass::StorageBuffer:		return DescriptorType::VK_DESCRIPTOR_TYPE_STORAGE_BUFFER;
 		default:
-- 
2.43.0


From ec96a69846a9b9a7370a54a1ba16d9f05be0a520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:04 +0000
Subject: [PATCH 53/92] fix: move assignment of graphs and nodes returns the
 object, the last node of a graph is not the first one

---
 common/include/common/Graph.h | 5 +++--
 common/include/common/Node.h  | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/common/include/common/Graph.h b/common/include/common/Graph.h
index da320b0..af0f0fd 100644
--- a/common/include/common/Graph.h
+++ b/common/include/common/Graph.h
@@ -41,8 +41,8 @@ namespace spvgentwo
 		NodeType& front() { return m_nodes.front(); }
 		const NodeType& front() const { return m_nodes.front(); }
 
-		NodeType& back() { return m_nodes.front(); }
-		const NodeType& back() const { return m_nodes.front(); }
+		NodeType& back() { return m_nodes.back(); }
+		const NodeType& back() const { return m_nodes.back(); }
 
 	protected:
 
@@ -65,6 +65,7 @@ namespace spvgentwo
 	inline Graph<N, E>& Graph<N, E>::operator=(Graph<N, E>&& _other) noexcept
 	{
 		m_nodes = stdrep::move(_other.m_nodes);
+		return *this;
 	}
 
 	template<class N, class E>
diff --git a/common/include/common/Node.h b/common/include/common/Node.h
index b9a64b3..4dd40ef 100644
--- a/common/include/common/Node.h
+++ b/common/include/common/Node.h
@@ -79,7 +79,7 @@ namespace spvgentwo
 	template<class N, class E>
 	inline Node<N, E>& Node<N, E>::operator=(Node<N, E>&& _other) noexcept
 	{
-		if (this == &_other) return this;
+		if (this == &_other) return *this;
 
 		m_data = stdrep::move(_other.m_data);
 		m_inputs = stdrep::move(_other.m_inputs);
-- 
2.43.0


From 22596ed029766cb9af76eacc6d2b218e48391b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:04 +0000
Subject: [PATCH 54/92] fix: expression graphs can be evaluated in a given
 order and with edge lists

---
 common/include/common/ExprGraph.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/common/include/common/ExprGraph.h b/common/include/common/ExprGraph.h
index 6d2ef79..d883923 100644
--- a/common/include/common/ExprGraph.h
+++ b/common/include/common/ExprGraph.h
@@ -56,7 +56,7 @@ namespace spvgentwo
 			}
 			else
 			{
-				expr(_pExitNode->inputs(), _pExitNode->output());			
+				expr(_pExitNode->inputs(), _pExitNode->outputs());
 			}
 		}
 	}
@@ -76,13 +76,13 @@ namespace spvgentwo
 
 			if constexpr (args == ExprArgs::FunctionPtrLists)
 			{
-				auto inputs = transform(node->inputs(), [](auto& edge) -> Func* {return &edge.pTarget->data().get(); });
-				auto outputs = transform(node->outputs(), [](auto& edge) -> Func* {return &edge.pTarget->data().get(); });
+				auto inputs = algo::transform(node->inputs(), [](auto& edge) -> Func* {return &edge.pTarget->data().get(); });
+				auto outputs = algo::transform(node->outputs(), [](auto& edge) -> Func* {return &edge.pTarget->data().get(); });
 				expr(inputs, outputs);
 			}
 			else
 			{
-				expr(node->inputs(), node->output());
+				expr(node->inputs(), node->outputs());
 			}
 		}
 
-- 
2.43.0


From 6b2876acc34f774ffd551f7e45c9f46119b581c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:04 +0000
Subject: [PATCH 55/92] fix: callables return the memory they allocated

---
 common/include/common/Callable.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/common/include/common/Callable.h b/common/include/common/Callable.h
index 6f8336d..b9d0fa6 100644
--- a/common/include/common/Callable.h
+++ b/common/include/common/Callable.h
@@ -88,6 +88,7 @@ namespace spvgentwo
 			virtual ~ICallable() = default;
 			virtual ReturnType invoke(Args...) = 0;
 			virtual ICallable* copy(IAllocator* _pAllocator) const = 0;
+			virtual void destroy(IAllocator* _pAllocator) = 0; // deallocates the actual implementation
 		};
 
 		template <typename Functor>
@@ -109,6 +110,11 @@ namespace spvgentwo
 				return _pAllocator->construct<CallableImpl<Functor>>(m_func);
 			}
 
+			void destroy(IAllocator* _pAllocator) final
+			{
+				_pAllocator->destruct(this);
+			}
+
 		private:
 			Functor m_func;
 		};
@@ -213,7 +219,7 @@ namespace spvgentwo
 		{
 			if (m_pAllocator != nullptr && m_pCallable != nullptr)
 			{
-				m_pAllocator->destruct(m_pCallable);
+				m_pCallable->destroy(m_pAllocator);
 				m_pCallable = nullptr;
 			}
 		}
-- 
2.43.0


From 0667021ad4fee89eded738fb5065eebe0d91fe78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:04 +0000
Subject: [PATCH 56/92] fix: callables can be assigned empty callables and
 themselves

---
 common/include/common/Callable.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/common/include/common/Callable.h b/common/include/common/Callable.h
index b9d0fa6..ddfa7aa 100644
--- a/common/include/common/Callable.h
+++ b/common/include/common/Callable.h
@@ -192,14 +192,21 @@ namespace spvgentwo
 
 		Callable& operator=(const Callable& _other)
 		{
+			if (this == &_other) return *this;
+
 			reset();
 			m_pAllocator = _other.m_pAllocator;
-			m_pCallable = _other.m_pCallable->copy(m_pAllocator);
+			if (_other.m_pCallable != nullptr && m_pAllocator != nullptr)
+			{
+				m_pCallable = _other.m_pCallable->copy(m_pAllocator);
+			}
 			return *this;
 		}
 
 		Callable& operator=(Callable&& _other)
 		{
+			if (this == &_other) return *this;
+
 			reset();
 			m_pAllocator = _other.m_pAllocator;
 			m_pCallable = _other.m_pCallable;
-- 
2.43.0


From c1dfac2bb88a17c1826d45fc59785ba4fcbe73ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:33 +0000
Subject: [PATCH 57/92] fix: OpBitCount takes integers, it was always refused

---
 lib/include/spvgentwo/SpvDefines.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/include/spvgentwo/SpvDefines.h b/lib/include/spvgentwo/SpvDefines.h
index 2216253..80abdfe 100644
--- a/lib/include/spvgentwo/SpvDefines.h
+++ b/lib/include/spvgentwo/SpvDefines.h
@@ -193,6 +193,7 @@ namespace spvgentwo
 		case spv::Op::OpSatConvertSToU:
 		case spv::Op::OpBitFieldInsert:
 		case spv::Op::OpBitReverse:
+		case spv::Op::OpBitCount:
 
 			_sign = Sign::Any;
 			return spv::Op::OpTypeInt;
-- 
2.43.0


From 88a9800551a72041ab758b4148e47f6f4fe57702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:33 +0000
Subject: [PATCH 58/92] fix: the product of a vector and a matrix has as many
 components as the matrix has columns

---
 lib/source/Instruction.cpp               | 2 +-
 lib/source/TypeInferenceAndValiation.cpp | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index c7ca4c2..2e1531f 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -1378,7 +1378,7 @@ spvgentwo::Instruction* spvgentwo::Instruction::opVectorTimesMatrix(Instruction*
 
 	if (pVecType->isVectorOfFloat() && pMatType->isMatrix() && pMatType->hasSameBase(*pVecType) && pMatType->front().getVectorComponentCount() == pVecType->getVectorComponentCount())
 	{
-		return makeOp(spv::Op::OpVectorTimesMatrix, _pVector->getResultTypeInstr(), InvalidId, _pVector, _pMatrix);
+		return makeOp(spv::Op::OpVectorTimesMatrix, InvalidInstr, InvalidId, _pVector, _pMatrix);
 	}
 
 	getModule()->logError("Operand of OpVectorTimesMatrix is not a vector or matrix of float type");
diff --git a/lib/source/TypeInferenceAndValiation.cpp b/lib/source/TypeInferenceAndValiation.cpp
index e5709bb..ce3d7b9 100644
--- a/lib/source/TypeInferenceAndValiation.cpp
+++ b/lib/source/TypeInferenceAndValiation.cpp
@@ -219,14 +219,14 @@ spvgentwo::Instruction* spvgentwo::ITypeInferenceAndVailation::inferResultType(c
 		break;
 	case spv::Op::OpVectorTimesMatrix:
 	{
-		if (type1 == nullptr) return module->getErrorInstr();
+		if (type2 == nullptr) return module->getErrorInstr();
 
 		// Matrix must be a matrix with the same Component Type as the Component Type in Result Type.
 		// Its number of columns must equal the number of components in Result Type.
 		// => return matrix row type:
-		if (type1->isMatrix())
+		if (type2->isMatrix())
 		{
-			return module->addType(type1->front().wrapVector(type1->getMatrixColumnCount()));
+			return module->addType(type2->getBaseType().wrapVector(type2->getMatrixColumnCount()));
 		}
 		break;
 	}
-- 
2.43.0


From d35a0b463ffb3c496b7df3844d8872dd8b9435cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:33 +0000
Subject: [PATCH 59/92] fix: merges of values include the first value and
 refuse values of other types and values without a block

---
 lib/include/spvgentwo/InstructionTemplate.inl | 15 ++++++++++++++-
 lib/source/Instruction.cpp                    | 15 +++++++++------
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/lib/include/spvgentwo/InstructionTemplate.inl b/lib/include/spvgentwo/InstructionTemplate.inl
index b3ec547..483ac57 100644
--- a/lib/include/spvgentwo/InstructionTemplate.inl
+++ b/lib/include/spvgentwo/InstructionTemplate.inl
@@ -209,7 +209,20 @@ namespace spvgentwo
 	template<class ...VarInst>
 	inline Instruction* Instruction::opPhi(Instruction* _pVar, VarInst* ..._variables)
 	{
-		makeOp(spv::Op::OpPhi, _pVar->getResultTypeInstr(), InvalidId);
+		Instruction* type = _pVar != nullptr && _pVar->hasResultType() ? _pVar->getResultTypeInstr() : nullptr;
+
+		auto isValid = [&](Instruction* var) -> bool
+		{
+			return type != nullptr && var != nullptr && var->hasResultType() && var->getResultTypeInstr() == type && var->getBasicBlock() != nullptr;
+		};
+
+		if ((isValid(_pVar) && ... && isValid(_variables)) == false)
+		{
+			getModule()->logError("Invalid variable (type or null) passed to opPhi");
+			return error();
+		}
+
+		makeOp(spv::Op::OpPhi, type, InvalidId);
 
 		auto addVar = [&](Instruction* var)
 		{
diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index 2e1531f..cfa3108 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -1009,21 +1009,24 @@ spvgentwo::Instruction* spvgentwo::Instruction::opPhiDynamic(const List<Instruct
 		return error();
 	}
 
-	Instruction* type = _variables.front()->getResultTypeInstr();
+	Instruction* first = _variables.front();
+	Instruction* type = first != nullptr && first->hasResultType() ? first->getResultTypeInstr() : nullptr;
 
 	if (type == nullptr) return error();
 
-	makeOp(spv::Op::OpPhi, type, InvalidId);
-
-	for (auto it = _variables.begin().next(); it != _variables.end(); ++it)
+	for (Instruction* var : _variables)
 	{
-		Instruction* var = *it;
-		if (var == nullptr || (var->getResultTypeInstr() != type) || (var->getBasicBlock() == nullptr))
+		if (var == nullptr || var->hasResultType() == false || (var->getResultTypeInstr() != type) || (var->getBasicBlock() == nullptr))
 		{
 			getModule()->logError("Invalid variable (type or null) passed to opPhiDynamic");
 			return error();
 		}
+	}
 
+	makeOp(spv::Op::OpPhi, type, InvalidId);
+
+	for (Instruction* var : _variables)
+	{
 		addOperand(var);
 		addOperand(var->getBasicBlock());
 	}
-- 
2.43.0


From bff0241f3c1f3b002493eebeffa23b061469a178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:33 +0000
Subject: [PATCH 60/92] fix: only vectors of the divisor's type can be scaled
 by its reciprocal

---
 lib/source/Instruction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index cfa3108..236de43 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -635,7 +635,7 @@ spvgentwo::Instruction* spvgentwo::Instruction::Div(Instruction* _pLeft, Instruc
 		return opFDiv(_pLeft, _pRight);
 	}
 	else if (BasicBlock* bb = getBasicBlock(); bb != nullptr && _allowVecDividedByScalar &&
-		lType->isVector() && rType->isScalar())
+		rType->isFloat() && lType->isVectorOfFloat(0u, rType->getFloatWidth()))
 	{
 		Instruction* one = nullptr;
 
-- 
2.43.0


From 3b114a9bd08f717087851e11ed79a742acff4f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:33 +0000
Subject: [PATCH 61/92] fix: operands without a type and non-numerical operands
 are refused

---
 lib/source/Instruction.cpp | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index 236de43..1b04759 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -1142,13 +1142,12 @@ spvgentwo::Instruction* spvgentwo::Instruction::opOuterProduct(Instruction* _pLe
 
 spvgentwo::Instruction* spvgentwo::Instruction::opDot(Instruction* _pLeft, Instruction* _pRight)
 {
-	Instruction* pLeftTypeInstr = _pLeft->getResultTypeInstr();
-	Instruction* pRightTypeInstr = _pRight->getResultTypeInstr();
+	const Type* pLeftType = _pLeft->getType();
+	const Type* pRightType = _pRight->getType();
 
-	if (pLeftTypeInstr == nullptr || pRightTypeInstr == nullptr) return error();
+	if (pLeftType == nullptr || pRightType == nullptr) return error();
 
-	const Type* pType = pLeftTypeInstr->getType();
-	if (pLeftTypeInstr == pRightTypeInstr && pType->isVectorOfFloat())
+	if (*pLeftType == *pRightType && pLeftType->isVectorOfFloat())
 	{
 		return makeOp(spv::Op::OpDot, InvalidInstr, InvalidId, _pLeft, _pRight);
 	}
@@ -1244,6 +1243,12 @@ spvgentwo::Instruction* spvgentwo::Instruction::opCompositeExtractDynamic(Instru
 
 spvgentwo::Instruction* spvgentwo::Instruction::opCopyObject(Instruction* _pObject)
 {
+	if (_pObject->hasResultType() == false)
+	{
+		getModule()->logError("Operand of opCopyObject has no result type");
+		return error();
+	}
+
 	return makeOp(spv::Op::OpCopyObject, _pObject->getResultTypeInstr(), InvalidId, _pObject);
 }
 
@@ -1281,10 +1286,11 @@ spvgentwo::Instruction* spvgentwo::Instruction::opVectorExtractDynamic(Instructi
 spvgentwo::Instruction* spvgentwo::Instruction::opVectorInsertDynamic(Instruction* _pVector, Instruction* _pComponent, Instruction* _pIndexInt)
 {
 	const Type* pVecType = _pVector->getType();
+	const Type* pComponentType = _pComponent->getType();
 	const Type* indexType = _pIndexInt->getType();
-	if (pVecType == nullptr || indexType == nullptr) return error();
+	if (pVecType == nullptr || pComponentType == nullptr || indexType == nullptr) return error();
 
-	if (pVecType->isVector() && pVecType->front() == *_pComponent->getType() && indexType->isInt())
+	if (pVecType->isVector() && pVecType->front() == *pComponentType && indexType->isInt())
 	{
 		return makeOp(spv::Op::OpVectorInsertDynamic, InvalidInstr, InvalidId, _pVector, _pComponent, _pIndexInt);
 	}
@@ -1699,7 +1705,8 @@ spvgentwo::Instruction* spvgentwo::Instruction::opBitcast(Instruction* _pResultT
 	}
 
 	if ((operandType->isPointer() && resultType->isPointer()) ||
-		(operandType->getScalarOrVectorLength() * operandType->getBaseType().getIntWidth() ==
+		(operandType->isNumericalScalarOrVector() && resultType->isNumericalScalarOrVector() &&
+			operandType->getScalarOrVectorLength() * operandType->getBaseType().getIntWidth() ==
 			resultType->getScalarOrVectorLength() * resultType->getBaseType().getIntWidth()))
 	{
 		return makeOp(spv::Op::OpBitcast, _pResultType, InvalidId, _pOperand);
-- 
2.43.0


From be8f023a3454c8ab6aec2ba30e35702977f4e59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:48 +0000
Subject: [PATCH 62/92] fix: what has no result or operands is not turned into
 a specialization constant operation

---
 lib/source/Instruction.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index 1b04759..787d7ff 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -1719,8 +1719,13 @@ spvgentwo::Instruction* spvgentwo::Instruction::opBitcast(Instruction* _pResultT
 
 spvgentwo::Instruction* spvgentwo::Instruction::toSpecOp()
 {
+	if (hasResultAndType() == false)
+	{
+		getModule()->logError("Operation without result can't be turned into OpSpecConstantOp");
+		return error();
+	}
+
 	spv::Op opcode = m_Operation;
-	m_Operation = spv::Op::OpSpecConstantOp;
 
 	auto it = getFirstActualOperand();
 	if (it == nullptr)
@@ -1730,6 +1735,7 @@ spvgentwo::Instruction* spvgentwo::Instruction::toSpecOp()
 	}
 
 	insert_before(it, opcode);
+	m_Operation = spv::Op::OpSpecConstantOp;
 
 	return this;
 }
-- 
2.43.0


From 5d5f1f9dcfc22bfd86df00009223b5a725558b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:12 +0000
Subject: [PATCH 63/92] fix: image operands that are missing, offsets and
 gradients are checked without dereferencing null

---
 lib/source/TypeInferenceAndValiation.cpp | 34 ++++++++++++++++++------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/lib/source/TypeInferenceAndValiation.cpp b/lib/source/TypeInferenceAndValiation.cpp
index ce3d7b9..82687aa 100644
--- a/lib/source/TypeInferenceAndValiation.cpp
+++ b/lib/source/TypeInferenceAndValiation.cpp
@@ -25,6 +25,17 @@ namespace
 		const Type* imageType = imgIt->getInstruction()->getType();
 		const Type* coordType = coordIt->getInstruction()->getType();
 
+		if (imageType == nullptr || coordType == nullptr)
+		{
+			module->logError("Image or coordinate without type");
+			return false;
+		}
+
+		if (imageType->isSampledImage())
+		{
+			imageType = &imageType->front();
+		}
+
 		Flag<spv::ImageOperandsMask> opMask = spv::ImageOperandsMask::MaskNone;
 		Instruction::Iterator imageOp1 = nullptr;
 
@@ -44,12 +55,12 @@ namespace
 		const Type* type1 = op1 != nullptr ? op1->getType() : nullptr;
 		const Type* type2 = op2 != nullptr ? op2->getType() : nullptr;;
 
-		auto checkCoordAndOperandDim = [&]() ->bool
+		auto checkCoordAndOperandDim = [&](const Type& _operand) ->bool
 		{
 			unsigned int coordLength = coordType->getScalarOrVectorLength() - (imageType->getImageArray() ? 1u : 0u);
-			if (coordLength != type1->getScalarOrVectorLength() || coordLength != type2->getScalarOrVectorLength())
+			if (coordLength != _operand.getScalarOrVectorLength())
 			{
-				module->logError("Invalid derivative dimensions");
+				module->logError("Invalid derivative or offset dimensions");
 				return false;
 			}
 			return true;
@@ -61,6 +72,13 @@ namespace
 			spv::ImageOperandsMask mask = static_cast<spv::ImageOperandsMask>(1u << i);
 			if ((opMask & mask) == mask)
 			{
+				const bool hasOperand = mask < spv::ImageOperandsMask::NonPrivateTexelKHR;
+				if (hasOperand && (type1 == nullptr || (mask == spv::ImageOperandsMask::Grad && type2 == nullptr)))
+				{
+					module->logError("Image operand is missing");
+					return false;
+				}
+
 				switch (mask)
 				{
 				case spv::ImageOperandsMask::Bias:
@@ -68,11 +86,11 @@ namespace
 				case spv::ImageOperandsMask::Lod:
 					return module->logError(op == spv::Op::OpImageFetch ? type1->isInt() : type1->isFloat(), "Lod operand must be of type float (or int for OpImageFetch)");
 				case spv::ImageOperandsMask::Grad:
-					if (checkCoordAndOperandDim() == false)
+					if (checkCoordAndOperandDim(*type1) == false || checkCoordAndOperandDim(*type2) == false)
 					{
 						return false;
 					}
-					if (type1->isBaseTypeOf(spv::Op::OpTypeFloat) == false || type2->isBaseTypeOf(spv::Op::OpTypeFloat))
+					if (type1->isBaseTypeOf(spv::Op::OpTypeFloat) == false || type2->isBaseTypeOf(spv::Op::OpTypeFloat) == false)
 					{
 						module->logError("Explicit lod grad operands must be scalar or vector of float");
 						return false;
@@ -86,13 +104,13 @@ namespace
 					}
 					[[fallthrough]];
 				case spv::ImageOperandsMask::Offset:
-					if (checkCoordAndOperandDim() == false)
+					if (checkCoordAndOperandDim(*type1) == false)
 					{
 						return false;
 					}
-					if (type1->isBaseTypeOf(spv::Op::OpTypeInt) == false || type2->isBaseTypeOf(spv::Op::OpTypeInt))
+					if (type1->isBaseTypeOf(spv::Op::OpTypeInt) == false)
 					{
-						module->logError("Explicit lod grad operands must be scalar or vector of integer");
+						module->logError("Offset operand must be scalar or vector of integer");
 						return false;
 					}
 					return true;
-- 
2.43.0


From 074a75f3517710fcf4786df602fad2510908c996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:12 +0000
Subject: [PATCH 64/92] fix: comparing with a depth reference yields a scalar
 and texels have the components of their format

---
 lib/source/TypeInferenceAndValiation.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lib/source/TypeInferenceAndValiation.cpp b/lib/source/TypeInferenceAndValiation.cpp
index 82687aa..115e7c7 100644
--- a/lib/source/TypeInferenceAndValiation.cpp
+++ b/lib/source/TypeInferenceAndValiation.cpp
@@ -404,7 +404,17 @@ spvgentwo::Instruction* spvgentwo::ITypeInferenceAndVailation::inferResultType(c
 		// component type the same as Sampled Type of the OpTypeImage(unless that Sampled Type is OpTypeVoid)
 
 		unsigned int components = instr != spv::Op::OpImageRead ? 4u : getImageChannelCount(image->getImageFormat());
+
+		if (components == 0u) components = 4u; // format is not known
+
+		// depth comparison yields a scalar, except for the four texels of OpImageDrefGather
+		const bool depth = instr == spv::Op::OpImageSampleDrefImplicitLod || instr == spv::Op::OpImageSampleDrefExplicitLod || instr == spv::Op::OpImageSampleProjDrefImplicitLod || instr == spv::Op::OpImageSampleProjDrefExplicitLod;
 		
+		if (depth)
+		{
+			return sampledType.isVoid() ? module->type<float>() : module->addType(sampledType);
+		}
+
 		if (sampledType.isVoid())
 		{
 			// assume float4
@@ -412,7 +422,7 @@ spvgentwo::Instruction* spvgentwo::ITypeInferenceAndVailation::inferResultType(c
 		}
 		else
 		{
-			return module->addType(sampledType.wrapVector(components));
+			return module->addType(components == 1u ? sampledType : sampledType.wrapVector(components));
 		}
 	}		
 		break;
-- 
2.43.0


From d3d137295db67e9e2ca7acbba1a12c81005066bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:12 +0000
Subject: [PATCH 65/92] fix: the size of a one-dimensional image is a scalar
 and buffers can be asked for theirs

---
 lib/source/Instruction.cpp               | 6 +++---
 lib/source/TypeInferenceAndValiation.cpp | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index 787d7ff..b26dae9 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -1531,12 +1531,12 @@ spvgentwo::Instruction* spvgentwo::Instruction::opImageQuerySize(Instruction* _p
 		getModule()->logError("Operand of OpImageQuerySize is not of type OpTypeImage");
 		return error();
 	}
-	else if (spv::Dim d = type->getImageDimension(); d != spv::Dim::Dim1D && d != spv::Dim::Dim2D && d != spv::Dim::Dim3D && d != spv::Dim::Cube && d != spv::Dim::Rect)
+	else if (spv::Dim d = type->getImageDimension(); d != spv::Dim::Dim1D && d != spv::Dim::Dim2D && d != spv::Dim::Dim3D && d != spv::Dim::Cube && d != spv::Dim::Rect && d != spv::Dim::Buffer)
 	{
-		getModule()->logError("Dimension of OpImageQuerySize operand _pImage is not 1D, 2D, 3D, Cube or Rect");
+		getModule()->logError("Dimension of OpImageQuerySize operand _pImage is not 1D, 2D, 3D, Cube, Rect or Buffer");
 		return error();
 	}
-	else if (d != spv::Dim::Rect && type->getImageMultiSampled() == false && type->getImageSamplerAccess() == SamplerImageAccess::Sampled)
+	else if (d != spv::Dim::Rect && d != spv::Dim::Buffer && type->getImageMultiSampled() == false && type->getImageSamplerAccess() == SamplerImageAccess::Sampled)
 	{
 		// Additionally, if its Dim is 1D, 2D, 3D, or Cube, it must also have either an MS of 1 or a Sampled of 0 or 2.
 		getModule()->logError("Operand _pImage of OpImageQuerySize must have either an MS of 1 or a Sampled of 0 or 2");
diff --git a/lib/source/TypeInferenceAndValiation.cpp b/lib/source/TypeInferenceAndValiation.cpp
index 115e7c7..36efad2 100644
--- a/lib/source/TypeInferenceAndValiation.cpp
+++ b/lib/source/TypeInferenceAndValiation.cpp
@@ -455,7 +455,7 @@ spvgentwo::Instruction* spvgentwo::ITypeInferenceAndVailation::inferResultType(c
 
 		auto dim = getImageDimension(type1->getImageDimension()) + (type1->getImageArray() ? 1u : 0u);
 
-		return module->addType(module->newType().Vector(dim).UIntM());
+		return dim == 1u ? module->type<unsigned int>() : module->addType(module->newType().Vector(dim).UIntM());
 	}
 	case spv::Op::OpImageQueryLod:
 		//Result Type must be a two - component floating - point type vector.
-- 
2.43.0


From e35e192f47eb0dffd5489c94d8f70ea6e2465700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:37 +0000
Subject: [PATCH 66/92] fix: texels are written with the components of the
 image's format, not of its dimension

---
 lib/include/spvgentwo/InstructionTemplate.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/include/spvgentwo/InstructionTemplate.inl b/lib/include/spvgentwo/InstructionTemplate.inl
index 483ac57..139d47b 100644
--- a/lib/include/spvgentwo/InstructionTemplate.inl
+++ b/lib/include/spvgentwo/InstructionTemplate.inl
@@ -806,7 +806,7 @@ namespace spvgentwo
 
 		const Type& sampledType = imageType->front();
 
-		if (texelType->isScalarOrVectorOf(sampledType.getType(), getImageDimension(imageType->getImageDimension()) ) == false)
+		if ((sampledType.isVoid() ? texelType->isNumericalScalarOrVector() : texelType->isScalarOrVectorOf(sampledType.getType())) == false)
 		{
 			module->logError("OpImageWrite texel type must be numerical scalar or vector of type %s", sampledType.getString());
 			return error();
-- 
2.43.0


From 5ba3151683de98eb00ff26a6d3ba9ccb6f682215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:37 +0000
Subject: [PATCH 67/92] fix: image coordinates have as many components and the
 kind the operation needs

---
 lib/include/spvgentwo/Instruction.h           |  3 ++-
 lib/include/spvgentwo/InstructionTemplate.inl |  7 +++----
 lib/source/Instruction.cpp                    | 11 +++++++++--
 3 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/lib/include/spvgentwo/Instruction.h b/lib/include/spvgentwo/Instruction.h
index 774262c..713065b 100644
--- a/lib/include/spvgentwo/Instruction.h
+++ b/lib/include/spvgentwo/Instruction.h
@@ -767,7 +767,8 @@ namespace spvgentwo
 		{
 			IsProjective = 1 << 0,
 			CanBeInt = 1 << 1,
-			MustBeInt = 1 << 2
+			MustBeInt = 1 << 2,
+			NoLayer = 1 << 3 // coordinates don't include the array layer
 		};
 
 		// Checks dimension & element type of coordiantes to access a image of type _pImageType
diff --git a/lib/include/spvgentwo/InstructionTemplate.inl b/lib/include/spvgentwo/InstructionTemplate.inl
index 139d47b..b4da43b 100644
--- a/lib/include/spvgentwo/InstructionTemplate.inl
+++ b/lib/include/spvgentwo/InstructionTemplate.inl
@@ -708,14 +708,13 @@ namespace spvgentwo
 				return error();
 			}
 			isSampled = false;
-			coordCheckArgs |= CheckImgCoord::CanBeInt;
+			coordCheckArgs |= CheckImgCoord::MustBeInt;
 			break;
 		case spv::Op::OpImageDrefGather:
 			isDref = true; [[fallthrough]];
 		case spv::Op::OpImageGather:
 			isSampled = true;
 			isComponent = !isDref;
-			coordCheckArgs |= CheckImgCoord::CanBeInt;
 			if (spv::Dim d = imageType->getImageDimension(); d != spv::Dim::Dim2D && d != spv::Dim::Cube && d != spv::Dim::Rect)
 			{
 				module.logError("OpImageGather requres Dim of sampled image to be 2D, Cube or Rect");
@@ -724,13 +723,13 @@ namespace spvgentwo
 			break;
 		case spv::Op::OpImageSampleImplicitLod:			isSampled = true; break;
 		case spv::Op::OpImageSampleExplicitLod:			isSampled = true; coordCheckArgs |= CheckImgCoord::CanBeInt; break;
-		case spv::Op::OpImageSampleProjImplicitLod:		isSampled = true; coordCheckArgs |= CheckImgCoord::CanBeInt; coordCheckArgs |= CheckImgCoord::IsProjective; break;
+		case spv::Op::OpImageSampleProjImplicitLod:		isSampled = true; coordCheckArgs |= CheckImgCoord::IsProjective; break;
 		case spv::Op::OpImageSampleProjExplicitLod:		isSampled = true; coordCheckArgs |= CheckImgCoord::IsProjective; break;
 		case spv::Op::OpImageSampleDrefImplicitLod:		isSampled = true; isDref = true; break;
 		case spv::Op::OpImageSampleDrefExplicitLod:		isSampled = true; isDref = true; break;
 		case spv::Op::OpImageSampleProjDrefImplicitLod: isSampled = true; coordCheckArgs |= CheckImgCoord::IsProjective; isDref = true; break;
 		case spv::Op::OpImageSampleProjDrefExplicitLod: isSampled = true; coordCheckArgs |= CheckImgCoord::IsProjective; isDref = true; break;
-		case spv::Op::OpImageQueryLod:					isSampled = true; coordCheckArgs |= CheckImgCoord::CanBeInt; break;
+		case spv::Op::OpImageQueryLod:					isSampled = true; coordCheckArgs |= CheckImgCoord::CanBeInt; coordCheckArgs |= CheckImgCoord::NoLayer; break;
 
 			break;
 		default:
diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index b26dae9..2d09d25 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -1802,7 +1802,14 @@ bool spvgentwo::Instruction::checkImageCoordinateType(const Type* _pImageType, c
 		return false;
 	}
 
-	if (_pImageType->getImageArray())
+	const bool cube = _pImageType->getImageDimension() == spv::Dim::Cube;
+
+	if (cube)
+	{
+		dim += 1u; // direction, or face (and layer) of texels addressed by integers
+	}
+
+	if (_pImageType->getImageArray() && _args.none(CheckImgCoord::NoLayer) && !(cube && (_args & CheckImgCoord::MustBeInt)))
 	{
 		dim += 1u;
 	}
@@ -1812,7 +1819,7 @@ bool spvgentwo::Instruction::checkImageCoordinateType(const Type* _pImageType, c
 		dim += 1u;
 	}
 
-	if (dim > 1u && _pCoordType->getVectorComponentCount() < dim)
+	if (_pCoordType->getScalarOrVectorLength() < dim)
 	{
 		module->logError("Dimension of coordinates does not match image type");
 		return false;
-- 
2.43.0


From 11f14e37d177b997b7ec1fa226c93438f6d41542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:31 +0000
Subject: [PATCH 68/92] fix: access chains start at pointers and parts are not
 reached through pointers

---
 lib/include/spvgentwo/InstructionTemplate.inl | 17 ++++++++++++++---
 lib/include/spvgentwo/Type.h                  | 16 ++++++++++++++++
 lib/source/Instruction.cpp                    |  4 ++--
 lib/source/Type.cpp                           | 18 ++++++++++++++++++
 4 files changed, 50 insertions(+), 5 deletions(-)

diff --git a/lib/include/spvgentwo/InstructionTemplate.inl b/lib/include/spvgentwo/InstructionTemplate.inl
index b4da43b..d06f6de 100644
--- a/lib/include/spvgentwo/InstructionTemplate.inl
+++ b/lib/include/spvgentwo/InstructionTemplate.inl
@@ -275,7 +275,18 @@ namespace spvgentwo
 		const Type* pBaseType = _pBase->getType();
 		if (pBaseType == nullptr) return error();
 
-		auto it = pBaseType->getSubType(0u, _indices...); // base is a pointer type, so 0 is used to get the inner type
+		if (pBaseType->isPointer() == false)
+		{
+			getModule()->logError("Base of OpAccessChain is not a pointer");
+			return error();
+		}
+
+		auto it = pBaseType->getSubType(0u); // base is a pointer type, so 0 is used to get the inner type
+
+		if constexpr (sizeof...(_indices) > 0u)
+		{
+			if (it != nullptr) it = it->getPart(_indices...);
+		}
 
 		if (it != nullptr)
 		{
@@ -578,7 +589,7 @@ namespace spvgentwo
 			return error();
 		}
 
-		auto it = pBaseType->getSubType(_indices...);
+		auto it = pBaseType->getPart(_indices...);
 
 		if (it != nullptr)
 		{
@@ -612,7 +623,7 @@ namespace spvgentwo
 			return error();
 		}
 
-		auto it = pBaseType->getSubType(_indices...);
+		auto it = pBaseType->getPart(_indices...);
 
 		if (it != nullptr)
 		{
diff --git a/lib/include/spvgentwo/Type.h b/lib/include/spvgentwo/Type.h
index a227a72..ca248fa 100644
--- a/lib/include/spvgentwo/Type.h
+++ b/lib/include/spvgentwo/Type.h
@@ -399,6 +399,14 @@ namespace spvgentwo
 		// depth first traversal of type hierarchy using integer indices (dynamic variant), returns nullptr if there are no indices or an index is outside of the composite it is applied to
 		Iterator getSubType(const List<unsigned int>& _indices) const;
 
+		// like getSubType, but only walks through composites and run-time arrays (not through pointers, images, functions)
+		Iterator getPart(unsigned int _i) const { return isComposite() || isRuntimeArray() ? getSubType(_i) : Iterator(nullptr); }
+
+		template<class... Indices>
+		Iterator getPart(unsigned int _i, unsigned int _j, Indices... _indices) const;
+
+		Iterator getPart(const List<unsigned int>& _indices) const;
+
 		// creates a new empty type from this types allocator
 		Type New() const;
 
@@ -690,6 +698,14 @@ namespace spvgentwo
 		return it != nullptr ? it->getSubType(_j, _indices...) : it;
 	}
 
+	template<class ...Indices>
+	inline List<Type>::Iterator Type::getPart(unsigned int _i, unsigned int _j, Indices ..._indices) const
+	{
+		auto it = getPart(_i);
+
+		return it != nullptr ? it->getPart(_j, _indices...) : it;
+	}
+
 	template<class Prop, class ...Props>
 	inline void Type::setProperties([[maybe_unused]] const Prop& _first, const Props& ..._props)
 	{
diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index 2d09d25..098fd81 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -1081,7 +1081,7 @@ spvgentwo::Instruction* spvgentwo::Instruction::opAccessChain(Instruction* _pBas
 
 	if (it != nullptr && _indices.empty() == false)
 	{
-		it = it->getSubType(_indices);
+		it = it->getPart(_indices);
 	}
 
 	if (it != nullptr)
@@ -1221,7 +1221,7 @@ spvgentwo::Instruction* spvgentwo::Instruction::opCompositeExtractDynamic(Instru
 		return error();
 	}
 
-	auto it = pBaseType->getSubType(_indices);
+	auto it = pBaseType->getPart(_indices);
 
 	if (it != nullptr)
 	{
diff --git a/lib/source/Type.cpp b/lib/source/Type.cpp
index bbd75d2..f9b5a52 100644
--- a/lib/source/Type.cpp
+++ b/lib/source/Type.cpp
@@ -726,6 +726,24 @@ spvgentwo::List<spvgentwo::Type>::Iterator spvgentwo::Type::getSubType(const Lis
 	return it;
 }
 
+spvgentwo::List<spvgentwo::Type>::Iterator spvgentwo::Type::getPart(const List<unsigned int>& _indices) const
+{
+	Iterator it(nullptr);
+	const Type* pType = this;
+
+	for (auto i : _indices)
+	{
+		it = pType->getPart(i);
+		if (it == nullptr)
+		{
+			return it;
+		}
+		pType = it.operator->();
+	}
+
+	return it;
+}
+
 spvgentwo::Type spvgentwo::Type::New() const
 {
 	return Type(m_subTypes.getAllocator());
-- 
2.43.0


From ecfa45095351ecc27d8ab4c367603ab6d705da10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:32 +0000
Subject: [PATCH 69/92] fix: shuffles name components their vectors have

---
 lib/include/spvgentwo/InstructionTemplate.inl | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/include/spvgentwo/InstructionTemplate.inl b/lib/include/spvgentwo/InstructionTemplate.inl
index d06f6de..80e93e3 100644
--- a/lib/include/spvgentwo/InstructionTemplate.inl
+++ b/lib/include/spvgentwo/InstructionTemplate.inl
@@ -537,6 +537,14 @@ namespace spvgentwo
 
 		if (lType->isVector() && rType->isVector() && lType->getBaseType() == rType->getBaseType())
 		{
+			// components are numbered through both vectors, 0xFFFFFFFF is an undefined one
+			const unsigned int available = lType->getVectorComponentCount() + rType->getVectorComponentCount();
+			if (((_components >= available && _components != sgt_uint32_max) || ...))
+			{
+				getModule()->logError("Component index of opVectorShuffle exceeds the components of both vectors");
+				return error();
+			}
+
 			Instruction* resultType = getModule()->addType(lType->getBaseType().wrapVector(componentCount));
 			return makeOp(spv::Op::OpVectorShuffle, resultType, InvalidId, _pVector1, _pVector2, literal_t{ _components }...);
 		}
-- 
2.43.0


From 86acf05f46ced68e2c400d8a4d47dde2923580f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:32 +0000
Subject: [PATCH 70/92] fix: memory is copied with two masks from SPIR-V 1.4

---
 lib/include/spvgentwo/InstructionTemplate.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/include/spvgentwo/InstructionTemplate.inl b/lib/include/spvgentwo/InstructionTemplate.inl
index 80e93e3..b5f6a56 100644
--- a/lib/include/spvgentwo/InstructionTemplate.inl
+++ b/lib/include/spvgentwo/InstructionTemplate.inl
@@ -493,9 +493,9 @@ namespace spvgentwo
 			return; // early out
 		}
 
-		if (module->getSpvVersion() <= makeVersion(1u, 4u) && _sourceMemOperands)
+		if (module->getSpvVersion() < makeVersion(1u, 4u) && _sourceMemOperands)
 		{
-			module->logError("Operand _sourceMemOperands of OpCopyMemory not supported before SPIR-V 1.5");
+			module->logError("Operand _sourceMemOperands of OpCopyMemory not supported before SPIR-V 1.4");
 			return;
 		}
 
-- 
2.43.0


From 8983cd1e6cdfa53d8954cffa69fa14bded9aec3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:32 +0000
Subject: [PATCH 71/92] fix: the length is taken of the structure's last member

---
 lib/source/Instruction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index 098fd81..87e0e04 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -1114,7 +1114,7 @@ spvgentwo::Instruction* spvgentwo::Instruction::opArrayLength(Instruction* _pStr
 	if (type == nullptr) return error();
 
 
-	if (type->isPointer() == false || type->front().isStruct() == false || type->front().back().isRuntimeArray() == false)
+	if (type->isPointer() == false || type->front().isStruct() == false || type->front().getSubTypes().empty() || type->front().back().isRuntimeArray() == false || _ArrayMemberIndex + 1u != type->front().getSubTypes().size())
 	{
 		getModule()->logError("Operand _pStructure of OpArrayLength must be a logical pointer to an OpTypeStruct whose last	member is a run-time array");
 		return error();
-- 
2.43.0


From a22dd5804e1b01a79fa8ef267918fd60be6ae480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:15 +0000
Subject: [PATCH 72/92] fix: access chains with a given type also go from
 pointer to pointer

---
 lib/include/spvgentwo/InstructionTemplate.inl | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/lib/include/spvgentwo/InstructionTemplate.inl b/lib/include/spvgentwo/InstructionTemplate.inl
index b5f6a56..df1ed6f 100644
--- a/lib/include/spvgentwo/InstructionTemplate.inl
+++ b/lib/include/spvgentwo/InstructionTemplate.inl
@@ -258,6 +258,13 @@ namespace spvgentwo
 			return error();
 		}
 
+		const Type* pBaseType = _pBase->getType();
+		if (pBaseType == nullptr || pBaseType->isPointer() == false)
+		{
+			getModule()->logError("Base of OpAccessChain is not a pointer");
+			return error();
+		}
+
 		return makeOp(spv::Op::OpAccessChain, _pResultType, InvalidId, _pBase, _pIndices...);
 	}
 
@@ -315,9 +322,16 @@ namespace spvgentwo
 
 		if (_pResultType == nullptr || _pBase == nullptr || _pConstIndex == nullptr) return error();
 
-		if (_pResultType->isType() == false)
+		if (_pResultType->isType() == false || _pResultType->getType()->isPointer() == false)
+		{
+			getModule()->logError("_pResultType is not a (pointer) type instruction");
+			return error();
+		}
+
+		const Type* pBaseType = _pBase->getType();
+		if (pBaseType == nullptr || pBaseType->isPointer() == false)
 		{
-			getModule()->logError("_pResultType is not a type instruction");
+			getModule()->logError("Base of OpInBoundsAccessChain is not a pointer");
 			return error();
 		}
 
-- 
2.43.0


From d3f069dfa0021b9cbe6d46881aec63ff660a3afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:24 +0000
Subject: [PATCH 73/92] fix: listed access chains start at pointers too

---
 lib/source/Instruction.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index 87e0e04..b9aec9a 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -1077,6 +1077,12 @@ spvgentwo::Instruction* spvgentwo::Instruction::opAccessChain(Instruction* _pBas
 	const Type* pBaseType = _pBase->getType();
 	if (pBaseType == nullptr) return error();
 
+	if (pBaseType->isPointer() == false)
+	{
+		getModule()->logError("Base of OpAccessChain is not a pointer");
+		return error();
+	}
+
 	auto it = pBaseType->getSubType(0u); // base is a pointer type, so 0 is used to get the inner type
 
 	if (it != nullptr && _indices.empty() == false)
-- 
2.43.0


From 26393fe963940209b5468c3a97083c723f4056c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:11 +0000
Subject: [PATCH 74/92] fix: execution modes of work graphs take ids

---
 lib/include/spvgentwo/SpvDefines.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/include/spvgentwo/SpvDefines.h b/lib/include/spvgentwo/SpvDefines.h
index 80abdfe..c292b37 100644
--- a/lib/include/spvgentwo/SpvDefines.h
+++ b/lib/include/spvgentwo/SpvDefines.h
@@ -65,6 +65,10 @@ namespace spvgentwo
 		case spv::ExecutionMode::SubgroupsPerWorkgroupId:
 		case spv::ExecutionMode::LocalSizeId:
 		case spv::ExecutionMode::LocalSizeHintId:
+		case spv::ExecutionMode::MaxNodeRecursionAMDX:
+		case spv::ExecutionMode::StaticNumWorkgroupsAMDX:
+		case spv::ExecutionMode::ShaderIndexAMDX:
+		case spv::ExecutionMode::MaxNumWorkgroupsAMDX:
 			return spv::Op::OpExecutionModeId;
 		default:
 			return spv::Op::OpExecutionMode;
-- 
2.43.0


From fe2e9f8f80609428f959fc1eb5d16ae4a476063f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:37 +0000
Subject: [PATCH 75/92] fix: branch targets are printed by name exactly when
 their labels are

---
 common/source/ModulePrinter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/source/ModulePrinter.cpp b/common/source/ModulePrinter.cpp
index 01e0d4e..7afd5d3 100644
--- a/common/source/ModulePrinter.cpp
+++ b/common/source/ModulePrinter.cpp
@@ -117,7 +117,7 @@ namespace
 			}
 	
 			_printer << "%";
-			if (const char* name = op.branchTarget->getName(); _options & ModulePrinter::PrintOptionsBits::OperandName && name != nullptr && stringLength(name) > 1)
+			if (const char* name = op.branchTarget->getName(); (_options & ModulePrinter::PrintOptionsBits::InstructionName) && name != nullptr && stringLength(name) > 1)
 			{
 				_printer.append(name, colors.operandId, colors.defaultText);
 			}
-- 
2.43.0


From 7ad1318a881b3f485cced4b4dcc222ce83a7e0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:37 +0000
Subject: [PATCH 76/92] fix: operations of specialization constants are printed
 without results whatever the options are

---
 common/source/ModulePrinter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/source/ModulePrinter.cpp b/common/source/ModulePrinter.cpp
index 7afd5d3..463b41c 100644
--- a/common/source/ModulePrinter.cpp
+++ b/common/source/ModulePrinter.cpp
@@ -319,7 +319,7 @@ bool spvgentwo::ModulePrinter::printInstruction(const Instruction& _instr, const
 			}
 
 			_printer << " [";
-			success &= printInstruction(constInstr, _grammar, _printer, _options ^ PrintOptionsBits::ResultId, nullptr);
+			success &= printInstruction(constInstr, _grammar, _printer, PrintOptions{ static_cast<unsigned int>(_options) & ~static_cast<unsigned int>(PrintOptionsBits::ResultId) }, nullptr);
 			_printer << "]";
 		}
 		else if (Grammar::hasOperandParameters(info.kind))
-- 
2.43.0


From 0cf3c3dc6b9a9202da78960bed1d3de191a946e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:37 +0000
Subject: [PATCH 77/92] fix: operands after a mask are printed in order, with
 the parameters of each of its bits

---
 common/source/ModulePrinter.cpp | 45 ++++++++++++++++++++++++---------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/common/source/ModulePrinter.cpp b/common/source/ModulePrinter.cpp
index 463b41c..7cf187f 100644
--- a/common/source/ModulePrinter.cpp
+++ b/common/source/ModulePrinter.cpp
@@ -324,26 +324,47 @@ bool spvgentwo::ModulePrinter::printInstruction(const Instruction& _instr, const
 		}
 		else if (Grammar::hasOperandParameters(info.kind))
 		{
-			if (auto* params = _grammar.getOperandParameters(info.kind, it->getLiteral()); params != nullptr)
-			{
-				auto pit = params->begin();
-				auto pend = params->end();
+			const unsigned int value = it->getLiteral();
+			++it;
 
-				for (++it; it != end && pit != pend; ++pit)
+			auto printParameters = [&](const unsigned int _value)
+			{
+				if (auto* params = _grammar.getOperandParameters(info.kind, _value); params != nullptr)
 				{
-					if (pit->kind == Grammar::OperandKind::LiteralString)
+					auto pit = params->begin();
+					auto pend = params->end();
+
+					for (; it != end && pit != pend; ++pit)
 					{
-						_printer << " \"";
-						it = appendLiteralString(_printer, it, end, colors.string, colors.defaultText);
-						_printer << "\"";
+						if (pit->kind == Grammar::OperandKind::LiteralString)
+						{
+							_printer << " \"";
+							it = appendLiteralString(_printer, it, end, colors.string, colors.defaultText);
+							_printer << "\"";
 
-						continue;
+							continue;
+						}
+
+						success &= printOperand(_instr, *it, *pit, _grammar, _printer, _options);
+						++it;
 					}
+				}
+			};
 
-					success &= printOperand(_instr, *it, *pit, _grammar, _printer, _options);
-					++it;
+			if (info.category == Grammar::OperandCategory::BitEnum)
+			{
+				for (unsigned int bit = 1u; bit != 0u; bit <<= 1u) // parameters follow in the order of the mask's bits
+				{
+					if (value & bit)
+					{
+						printParameters(bit);
+					}
 				}
 			}
+			else
+			{
+				printParameters(value);
+			}
 		}
 		else if (info.quantifier == Grammar::Quantifier::ZeroOrAny)
 		{
-- 
2.43.0


From ce38d3e17f59cdf3354b37edbd4eab23596a1fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:37 +0000
Subject: [PATCH 78/92] fix: every word of a constant's number is printed

---
 common/source/ModulePrinter.cpp | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/common/source/ModulePrinter.cpp b/common/source/ModulePrinter.cpp
index 7cf187f..9d6e090 100644
--- a/common/source/ModulePrinter.cpp
+++ b/common/source/ModulePrinter.cpp
@@ -167,14 +167,6 @@ namespace
 					return true;
 				}
 			}
-			else if (_info.kind == Grammar::OperandKind::LiteralContextDependentNumber && _instr.isSpecOrConstant() && (_options & ModulePrinter::PrintOptionsBits::ConstantData))
-			{
-				if (const Constant* c = _instr.getConstant(); c != nullptr)
-				{
-					if (_printer.append(*c, colors.constant, colors.defaultText))
-						return true;
-				}
-			}
 
 			//fallback
 			_printer.append(op.literal.value, colors.literal, colors.defaultText);
@@ -295,6 +287,25 @@ bool spvgentwo::ModulePrinter::printInstruction(const Instruction& _instr, const
 			}
 		}
 
+		if (info.kind == Grammar::OperandKind::LiteralContextDependentNumber) // number of words depends on the type
+		{
+			const Constant* constant = _instr.isSpecOrConstant() && (_options & PrintOptionsBits::ConstantData) ? _instr.getConstant() : nullptr;
+
+			_printer << " ";
+			const bool printed = constant != nullptr && _printer.append(*constant, colors.constant, colors.defaultText);
+
+			for (bool first = true; it != end && it->isLiteral(); ++it, first = false)
+			{
+				if (printed == false)
+				{
+					_printer << (first ? "" : " ");
+					_printer.append(it->literal.value, colors.literal, colors.defaultText);
+				}
+			}
+
+			continue;
+		}
+
 		success &= printOperand(_instr, *it, info, _grammar, _printer, _options);
 		// need to increment 'it' after this part
 
-- 
2.43.0


From dece4311cd03ecede5a9fad9420bc08eb023cd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:37 +0000
Subject: [PATCH 79/92] fix: unknown instructions are reported, not printed

---
 common/source/ModulePrinter.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/common/source/ModulePrinter.cpp b/common/source/ModulePrinter.cpp
index 9d6e090..0a60f3a 100644
--- a/common/source/ModulePrinter.cpp
+++ b/common/source/ModulePrinter.cpp
@@ -205,6 +205,12 @@ bool spvgentwo::ModulePrinter::printInstruction(const Instruction& _instr, const
 	auto* instrInfo = _grammar.getInfo(static_cast<unsigned int>(_instr.getOperation()));
 	const auto& colors = _printer.getColorScheme();
 
+	if (instrInfo == nullptr)
+	{
+		_printer.append("\nINVALID INSTRUCTION\n", colors.error, colors.defaultText);
+		return false; // not part of the grammar
+	}
+
 	if (_instr.hasResult() && ((_options & PrintOptionsBits::InstructionName) || (_options & PrintOptionsBits::ResultId)))
 	{
 		if (const char* name = _instr.getName(); (_options & PrintOptionsBits::InstructionName) && name != nullptr && stringLength(name) > 1)
-- 
2.43.0


From 078648f92773ff186c2b4771e0a88f88620f6cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:33 +0000
Subject: [PATCH 80/92] fix: missing parameters of enumerants are reported when
 printing

---
 common/source/ModulePrinter.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/common/source/ModulePrinter.cpp b/common/source/ModulePrinter.cpp
index 0a60f3a..32d4710 100644
--- a/common/source/ModulePrinter.cpp
+++ b/common/source/ModulePrinter.cpp
@@ -365,6 +365,12 @@ bool spvgentwo::ModulePrinter::printInstruction(const Instruction& _instr, const
 						success &= printOperand(_instr, *it, *pit, _grammar, _printer, _options);
 						++it;
 					}
+
+					if (pit != pend && pit->quantifier == Grammar::Quantifier::One) // last parameter was not optional
+					{
+						_printer.append("\nINVALID INSTRUCTION\n", colors.error, colors.defaultText);
+						success = false;
+					}
 				}
 			};
 
-- 
2.43.0


From e1656cb791350c6230699eba17261d04701e83c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:51 +0000
Subject: [PATCH 81/92] fix: printing extended instructions without a set reads
 no null pointer

---
 common/source/ModulePrinter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/source/ModulePrinter.cpp b/common/source/ModulePrinter.cpp
index 32d4710..94af903 100644
--- a/common/source/ModulePrinter.cpp
+++ b/common/source/ModulePrinter.cpp
@@ -137,7 +137,7 @@ namespace
 		{
 			if (_instr.getOperation() == spv::Op::OpExtInst)
 			{
-				if (auto set = _instr.getFirstActualOperand(); set != nullptr && set->isInstruction() && *set->instruction == spv::Op::OpExtInstImport) // extension set
+				if (auto set = _instr.getFirstActualOperand(); set != nullptr && set->isInstruction() && set->instruction != nullptr && *set->instruction == spv::Op::OpExtInstImport) // extension set
 				{					
 					Grammar::Extension ext = Grammar::Extension::Core;
 					if (compareLiteralString("GLSL.std.450", set->instruction->getFirstActualOperand(), set->instruction->end()))
-- 
2.43.0


From ac21cbf710f04021ad853d4386f5fbeb3d380af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:31 +0000
Subject: [PATCH 82/92] fix: removing the linkage capability is an option of
 its own

---
 common/include/common/LinkerHelper.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/include/common/LinkerHelper.h b/common/include/common/LinkerHelper.h
index cd669d7..45e2465 100644
--- a/common/include/common/LinkerHelper.h
+++ b/common/include/common/LinkerHelper.h
@@ -42,7 +42,7 @@ namespace spvgentwo
 			ImportReferencedVariables = 1 << 6, // global variables referenced in (auto) imported functions
 			ImportReferencedStrings = 1 << 7, // global strings referenced in OpLine etc
 			AssignResultIDs = 1 << 8, // on-the-fligh assing ResultIds while transfering instructions from lib to consumber module (leaves original IDs intact, can improve performance if module.assignIDs() is not used)
-			RemoveLinkageCapability = 1 << 8, // remove linkage capability from the consumer library if all imports and exports have been resolved
+			RemoveLinkageCapability = 1 << 9, // remove linkage capability from the consumer library if all imports and exports have been resolved
 			AutoAddRequiredCapabilitiesAndExtensions = 1 << 10, // instead of copying ALL Capabilities & Extensions from the all libs to the consumer module, use LinkerOptions.grammar to select only required Caps & Exts for the consumer module.
 			UpdateEntryPointGlobalVarInterface = 1 << 11, // Add global variables referenced by the consumer EntryPoints to their OpEntryPoint, this should always be switched on unless Module.finalizeEntryPoints() is called after linking.
 			CopyOpSourceStringInstructions = 1 << 12, // Copy OpString, OpSource, OpSourceContinued and OpSourceExtension instructions from lib to consumer module
-- 
2.43.0


From 408de0ba778ddd49d0f28884ec98da7413e94bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:31 +0000
Subject: [PATCH 83/92] fix: symbols are linked whether or not others failed

---
 common/source/LinkerHelper.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/common/source/LinkerHelper.cpp b/common/source/LinkerHelper.cpp
index 4fbd87e..e511c8e 100644
--- a/common/source/LinkerHelper.cpp
+++ b/common/source/LinkerHelper.cpp
@@ -704,20 +704,20 @@ bool spvgentwo::LinkerHelper::import(const Module& _lib, Module& _consumer, cons
 	// import variables first in case they are used in the imported function
 	for (const ImportSymbol& var : iVars)
 	{
-		if (success &= importSymbolImpl(_consumer, var.lib, var.consume, var.name, cache, _options); success)
+		if (importSymbolImpl(_consumer, var.lib, var.consume, var.name, cache, _options))
 		{
 			_consumer.getDecorations().erase(var.decoIt); // remove if successful
 		}
-		else { allImportsResolved = false; }
+		else { allImportsResolved = success = false; }
 	}
 
 	for (const ImportSymbol& func : iFuncs)
 	{
-		if (success &= importSymbolImpl(_consumer, func.lib, func.consume, func.name, cache, _options); success)
+		if (importSymbolImpl(_consumer, func.lib, func.consume, func.name, cache, _options))
 		{
 			_consumer.getDecorations().erase(func.decoIt); // remove if successful
 		}
-		else { allImportsResolved = false; }
+		else { allImportsResolved = success = false; }
 	}
 
 	if (_options & LinkerOptionBits::ImportReferencedNames)
-- 
2.43.0


From ddf4df975f771feba912ea8e70db478bccbda3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:31 +0000
Subject: [PATCH 84/92] fix: the linkage capability stays while there are
 unresolved imports

---
 common/source/LinkerHelper.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/source/LinkerHelper.cpp b/common/source/LinkerHelper.cpp
index e511c8e..8a0adbe 100644
--- a/common/source/LinkerHelper.cpp
+++ b/common/source/LinkerHelper.cpp
@@ -579,6 +579,7 @@ bool spvgentwo::LinkerHelper::import(const Module& _lib, Module& _consumer, cons
 	List<ImportSymbol> iFuncs(pAllocator);
 
 	bool hasExports = false;
+	bool allImportsResolved = true;
 
 	// gather symbols to import
 	for (auto it = _consumer.getDecorations().begin(), end = _consumer.getDecorations().end(); it != end; ++it)
@@ -610,6 +611,7 @@ bool spvgentwo::LinkerHelper::import(const Module& _lib, Module& _consumer, cons
 			else
 			{
 				info("Symbol %s not found in import module", name.c_str()); // just an info because it could be in a different import module
+				allImportsResolved = false;
 			}
 		}
 		else if (type == spv::LinkageType::Export)
@@ -700,7 +702,6 @@ bool spvgentwo::LinkerHelper::import(const Module& _lib, Module& _consumer, cons
 		}
 	}
 
-	bool allImportsResolved = true;
 	// import variables first in case they are used in the imported function
 	for (const ImportSymbol& var : iVars)
 	{
-- 
2.43.0


From ba95271e5639e2ef79ff6707929478a4c7e6fdd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:31 +0000
Subject: [PATCH 85/92] fix: functions called by imported ones use the imported
 variables, no copies of them

---
 common/source/LinkerHelper.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/common/source/LinkerHelper.cpp b/common/source/LinkerHelper.cpp
index 8a0adbe..4a48873 100644
--- a/common/source/LinkerHelper.cpp
+++ b/common/source/LinkerHelper.cpp
@@ -649,6 +649,16 @@ bool spvgentwo::LinkerHelper::import(const Module& _lib, Module& _consumer, cons
 		success &= copy(_lib.getModulesProcessed(), [&]() -> Instruction* { return _consumer.addModuleProccessedInstr(); });
 	}
 
+	// import variables first in case they are used in the imported functions or the functions those call
+	for (const ImportSymbol& var : iVars)
+	{
+		if (importSymbolImpl(_consumer, var.lib, var.consume, var.name, cache, _options))
+		{
+			_consumer.getDecorations().erase(var.decoIt); // remove if successful
+		}
+		else { allImportsResolved = success = false; }
+	}
+
 	if (_options & LinkerOptionBits::ImportReferencedFunctions)
 	{
 		// gather all functions called from all the iFuncs we want to import
@@ -702,16 +712,6 @@ bool spvgentwo::LinkerHelper::import(const Module& _lib, Module& _consumer, cons
 		}
 	}
 
-	// import variables first in case they are used in the imported function
-	for (const ImportSymbol& var : iVars)
-	{
-		if (importSymbolImpl(_consumer, var.lib, var.consume, var.name, cache, _options))
-		{
-			_consumer.getDecorations().erase(var.decoIt); // remove if successful
-		}
-		else { allImportsResolved = success = false; }
-	}
-
 	for (const ImportSymbol& func : iFuncs)
 	{
 		if (importSymbolImpl(_consumer, func.lib, func.consume, func.name, cache, _options))
-- 
2.43.0


From b27ef936c4904704248351fe8c210a39310320ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:16 +0000
Subject: [PATCH 86/92] fix: imported functions may refer to instructions
 before they are transferred

---
 common/source/LinkerHelper.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/common/source/LinkerHelper.cpp b/common/source/LinkerHelper.cpp
index 4a48873..4d7912e 100644
--- a/common/source/LinkerHelper.cpp
+++ b/common/source/LinkerHelper.cpp
@@ -196,12 +196,12 @@ namespace
 		return instr;
 	}
 
-	inline bool transferInstruction(const spvgentwo::Instruction* _pLibInstr, spvgentwo::Instruction* _pTarget, InstrLookup& _cache, spvgentwo::LinkerHelper::LinkerOptions _options)
+	inline bool transferInstruction(const spvgentwo::Instruction* _pLibInstr, spvgentwo::Instruction* _pTarget, InstrLookup& _cache, spvgentwo::LinkerHelper::LinkerOptions _options, const bool _reserved = false)
 	{
 		using namespace spvgentwo;
 		using namespace LinkerHelper;
 
-		if (_cache.find(_pLibInstr) != _cache.end())
+		if (_reserved == false && _cache.find(_pLibInstr) != _cache.end())
 		{
 			return true;
 		}
@@ -404,9 +404,10 @@ namespace
 
 		printInstruction(_options, _lBB.getLabel(), " -> ", _cBB.getLabel());
 
+		auto cit = _cBB.begin();
 		for (const spvgentwo::Instruction& lInstr : _lBB)
 		{
-			success &= transferInstruction(&lInstr, _cBB.addInstruction(), _cache, _options);
+			success &= transferInstruction(&lInstr, (cit++).operator->(), _cache, _options, true);
 		}
 
 		return success;
@@ -467,6 +468,15 @@ namespace
 			_cache.emplaceUnique(lBB.getLabel(), assignId(cBB.getLabel(), _options));
 		}
 
+		// cache instructions too, phis refer to ones that are not yet transferred
+		for(auto lit = _lFunc.begin(), cit = _cFunc.begin(); lit != _lFunc.end(); ++lit, ++cit)
+		{
+			for (const Instruction& lInstr : *lit)
+			{
+				_cache.emplaceUnique(&lInstr, cit->addInstruction());
+			}
+		}
+
 		for(auto lit = _lFunc.begin(), cit = _cFunc.begin(); lit != _lFunc.end(); ++lit, ++cit)
 		{
 			success &= transferBasicBlock(*lit, *cit, _cache, _options);
-- 
2.43.0


From 643f464531f891667e6f4e82af1a6c60e4f7fccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:16 +0000
Subject: [PATCH 87/92] fix: branches of imported functions have their targets

---
 common/source/LinkerHelper.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/common/source/LinkerHelper.cpp b/common/source/LinkerHelper.cpp
index 4d7912e..752e828 100644
--- a/common/source/LinkerHelper.cpp
+++ b/common/source/LinkerHelper.cpp
@@ -349,7 +349,14 @@ namespace
 					printInstruction(_options, lib, " -> ", cInstr);				
 				}
 
-				_pTarget->addOperand(cInstr);
+				if (*cInstr == spv::Op::OpLabel)
+				{
+					_pTarget->addOperand(cInstr->getBasicBlock());
+				}
+				else
+				{
+					_pTarget->addOperand(cInstr);
+				}
 				return true;
 			}
 
-- 
2.43.0


From 5c37b5f870f5b8686b70160d16386423dc63571f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:16 +0000
Subject: [PATCH 88/92] fix: imported functions may call each other in any
 order

---
 common/source/LinkerHelper.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/common/source/LinkerHelper.cpp b/common/source/LinkerHelper.cpp
index 752e828..b58c606 100644
--- a/common/source/LinkerHelper.cpp
+++ b/common/source/LinkerHelper.cpp
@@ -676,6 +676,15 @@ bool spvgentwo::LinkerHelper::import(const Module& _lib, Module& _consumer, cons
 		else { allImportsResolved = success = false; }
 	}
 
+	// cache imported functions, they can be called by functions that are transferred before them
+	for (const ImportSymbol& func : iFuncs)
+	{
+		if (*func.consume == spv::Op::OpFunction)
+		{
+			cache.emplaceUnique(func.lib, func.consume);
+		}
+	}
+
 	if (_options & LinkerOptionBits::ImportReferencedFunctions)
 	{
 		// gather all functions called from all the iFuncs we want to import
-- 
2.43.0


From a7dc3fc520bb6210d94f2e2a84851a75be515703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:16 +0000
Subject: [PATCH 89/92] fix: imported variables get their initializer

---
 common/source/LinkerHelper.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/common/source/LinkerHelper.cpp b/common/source/LinkerHelper.cpp
index b58c606..b34190f 100644
--- a/common/source/LinkerHelper.cpp
+++ b/common/source/LinkerHelper.cpp
@@ -541,6 +541,13 @@ namespace
 
 			printInstruction(_options, _libSymbol, " -> ", _consumerSymbol);
 			_cache.emplaceUnique(_libSymbol, _consumerSymbol);
+
+			if (_libSymbol->size() > _consumerSymbol->size()) // initializer
+			{
+				Instruction definition(&_consumer, spv::Op::OpNop);
+				if (transferInstruction(_libSymbol, &definition, _cache, _options, true) == false) return false;
+				_consumerSymbol->addOperand(definition.back());
+			}
 		}
 		else if (*_libSymbol == spv::Op::OpFunction && _libSymbol->getFunction() != nullptr && _consumerSymbol->getFunction() != nullptr)
 		{
-- 
2.43.0


From 43728aa1a4b773c55c6bd04bb27956d35fad82dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:27 +0000
Subject: [PATCH 90/92] fix: names of imported structures are not taken for a
 member's

---
 common/source/LinkerHelper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/source/LinkerHelper.cpp b/common/source/LinkerHelper.cpp
index b34190f..e3b421f 100644
--- a/common/source/LinkerHelper.cpp
+++ b/common/source/LinkerHelper.cpp
@@ -770,7 +770,7 @@ bool spvgentwo::LinkerHelper::import(const Module& _lib, Module& _consumer, cons
 				{
 					for (const auto& n : _lib.getNameLookupMap().getRange(lTarget))
 					{
-						if (*lTarget == spv::Op::OpTypeStruct)
+						if (n.kv.value.member != sgt_uint32_max)
 						{
 							_consumer.addMemberName(cTarget, n.kv.value.name.c_str(), n.kv.value.member);
 						}
-- 
2.43.0


From dd97b4a2219e666b38817d4fc36846363d9712f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:27 +0000
Subject: [PATCH 91/92] fix: libraries may have decoration groups

---
 common/source/LinkerHelper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/source/LinkerHelper.cpp b/common/source/LinkerHelper.cpp
index e3b421f..2038afc 100644
--- a/common/source/LinkerHelper.cpp
+++ b/common/source/LinkerHelper.cpp
@@ -788,7 +788,7 @@ bool spvgentwo::LinkerHelper::import(const Module& _lib, Module& _consumer, cons
 	{
 		for (const Instruction& lDeco : _lib.getDecorations())
 		{
-			if (ReflectionHelper::getSpvDecorationKindFromDecoration(&lDeco) != spv::Decoration::LinkageAttributes)
+			if (lDeco.getFirstActualOperand() != lDeco.end() && ReflectionHelper::getSpvDecorationKindFromDecoration(&lDeco) != spv::Decoration::LinkageAttributes)
 			{
 				const Instruction* lTarget = lDeco.getFirstActualOperand()->getInstruction();
 				if (Instruction** ppCTarget = cache[lTarget]; ppCTarget != nullptr)
-- 
2.43.0


From 0f094d8246053a427b44f80131bd6bf7f4831ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:25 +0000
Subject: [PATCH 92/92] fix: names and decorations of nested types were lost
 when linking

---
 common/source/LinkerHelper.cpp | 44 ++++++++++++++++++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/common/source/LinkerHelper.cpp b/common/source/LinkerHelper.cpp
index 2038afc..1d6a7ab 100644
--- a/common/source/LinkerHelper.cpp
+++ b/common/source/LinkerHelper.cpp
@@ -196,6 +196,22 @@ namespace
 		return instr;
 	}
 
+	// adding a type or constant adds what it consists of too, which can be named and decorated as well
+	inline void cacheParts(const spvgentwo::Instruction* _pLibInstr, spvgentwo::Instruction* _pTarget, InstrLookup& _cache)
+	{
+		auto lit = _pLibInstr->begin(), lend = _pLibInstr->end();
+		auto cit = _pTarget->begin(), cend = _pTarget->end();
+
+		for (; lit != lend && cit != cend; ++lit, ++cit)
+		{
+			if (lit->isInstruction() && cit->isInstruction() && _cache.find(lit->getInstruction()) == _cache.end())
+			{
+				_cache.emplaceUnique(lit->getInstruction(), cit->getInstruction());
+				cacheParts(lit->getInstruction(), cit->getInstruction(), _cache);
+			}
+		}
+	}
+
 	inline bool transferInstruction(const spvgentwo::Instruction* _pLibInstr, spvgentwo::Instruction* _pTarget, InstrLookup& _cache, spvgentwo::LinkerHelper::LinkerOptions _options, const bool _reserved = false)
 	{
 		using namespace spvgentwo;
@@ -341,6 +357,10 @@ namespace
 				if (cached == false)
 				{
 					_cache.emplaceUnique(lib, cInstr);
+					if (lib->isType() || lib->isSpecOrConstant())
+					{
+						cacheParts(lib, cInstr, _cache);
+					}
 					if (_options & LinkerOptionBits::AssignResultIDs)
 					{
 						cInstr->assignResultId(false);
@@ -786,6 +806,17 @@ bool spvgentwo::LinkerHelper::import(const Module& _lib, Module& _consumer, cons
 
 	if (_options & LinkerOptionBits::ImportReferencedDecorations)
 	{
+		auto isSame = [](const Instruction& _left, const Instruction& _right) -> bool
+		{
+			if (_left.getOperation() != _right.getOperation() || _left.size() != _right.size()) { return false; }
+
+			for (auto lit = _left.begin(), rit = _right.begin(); lit != _left.end(); ++lit, ++rit)
+			{
+				if ((*lit == *rit) == false) { return false; }
+			}
+			return true;
+		};
+
 		for (const Instruction& lDeco : _lib.getDecorations())
 		{
 			if (lDeco.getFirstActualOperand() != lDeco.end() && ReflectionHelper::getSpvDecorationKindFromDecoration(&lDeco) != spv::Decoration::LinkageAttributes)
@@ -795,6 +826,19 @@ bool spvgentwo::LinkerHelper::import(const Module& _lib, Module& _consumer, cons
 				{
 					Instruction* cDeco = _consumer.addDecorationInstr();
 					success &= transferInstruction(&lDeco, cDeco, cache, _options);
+
+					// types of both modules can be decorated already
+					bool decorated = false;
+					auto it = _consumer.getDecorations().begin();
+					for (; it.operator->() != cDeco; ++it)
+					{
+						decorated |= isSame(*it, *cDeco);
+					}
+
+					if (decorated)
+					{
+						_consumer.getDecorations().erase(it);
+					}
 				}
 			}
 		}
-- 
2.43.0

