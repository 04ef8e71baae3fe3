From ed6228ee21d8bd8059c1bb02f92b3048a9609ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:33 +0000
Subject: [PATCH 01/22] fix: Ptr/ComPtr assignment releases the old object only
 after taking the new one

Assigning from a pointer that lives inside the currently owned object
(head = head->next, copy or move) read freed memory, and assigning nullptr
left the pointer observable in a half-released state while the old object
was being destroyed.
---
 Source/Primitives/Pointer.h | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/Source/Primitives/Pointer.h b/Source/Primitives/Pointer.h
index 2e0e034..e6e3c6a 100644
--- a/Source/Primitives/Pointer.h
+++ b/Source/Primitives/Pointer.h
@@ -230,8 +230,7 @@ Ptr
 		/// <param name="pointer">The nullptr.</param>
 		Ptr<T>& operator=(std::nullptr_t)
 		{
-			Dec();
-			SetEmptyNoIncDec();
+			Ptr<T> released(std::move(*this));
 			return *this;
 		}
 
@@ -242,7 +241,7 @@ Ptr
 		{
 			if (this != &pointer)
 			{
-				Dec();
+				Ptr<T> released(std::move(*this));
 				counter = pointer.counter;
 				reference = pointer.reference;
 				originalReference = pointer.originalReference;
@@ -259,7 +258,7 @@ Ptr
 		{
 			if (this != &pointer)
 			{
-				Dec();
+				Ptr<T> released(std::move(*this));
 				counter = pointer.counter;
 				reference = pointer.reference;
 				originalReference = pointer.originalReference;
@@ -402,14 +401,13 @@ ComPtr
 
 		ComPtr<T>& operator=(std::nullptr_t)
 		{
-			Dec();
-			SetEmpty();
+			ComPtr<T> released(std::move(*this));
 			return *this;
 		}
 
 		ComPtr<T>& operator=(T* pointer)
 		{
-			Dec();
+			ComPtr<T> released(std::move(*this));
 			if (pointer)
 			{
 				counter = new atomic_vint(1);
@@ -426,7 +424,7 @@ ComPtr
 		{
 			if (this != &pointer)
 			{
-				Dec();
+				ComPtr<T> released(std::move(*this));
 				counter = pointer.counter;
 				reference = pointer.reference;
 				Inc();
@@ -438,7 +436,7 @@ ComPtr
 		{
 			if (this != &pointer)
 			{
-				Dec();
+				ComPtr<T> released(std::move(*this));
 				counter = pointer.counter;
 				reference = pointer.reference;
 				pointer.SetEmpty();
-- 
2.43.0


From dfb1e7be84e7a7ab88c9b027245a8099f00a9e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:57 +0000
Subject: [PATCH 02/22] fix: Ptr::Detach empties the pointer when other owners
 remain

Detach only cleared the pointer when it was the last owner; otherwise the
detached pointer kept its counter and released the reference a second time.
---
 Source/Primitives/Pointer.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Source/Primitives/Pointer.h b/Source/Primitives/Pointer.h
index e6e3c6a..5e501d8 100644
--- a/Source/Primitives/Pointer.h
+++ b/Source/Primitives/Pointer.h
@@ -212,6 +212,7 @@ Ptr
 		{
 			auto detached = reference;
 			Dec(false);
+			SetEmptyNoIncDec();
 			return detached;
 		}
 
-- 
2.43.0


From 698faba7635538633e4aabad8855e2c9af7185ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:11 +0000
Subject: [PATCH 03/22] fix: inserting a container's own element no longer
 reads a moved or freed slot

List/SortedList Insert and Add, and Dictionary/Group Set and Add, took their
argument by reference and read it after the buffer had been shifted or
reallocated, so xs.Insert(0, xs[3]) or d.Set(k2, d[k1]) stored a wrong value
or read freed memory.
---
 Source/Collections/Dictionary.h |  9 ++++++---
 Source/Collections/List.h       | 25 +++++++++++++++++++++++++
 2 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/Source/Collections/Dictionary.h b/Source/Collections/Dictionary.h
index 11cac3b..bc1beb2 100644
--- a/Source/Collections/Dictionary.h
+++ b/Source/Collections/Dictionary.h
@@ -94,8 +94,9 @@ namespace vl
 				vint index = keys.IndexOf(KeyType<KT>::GetKeyValue(keyAccept));
 				if (index == -1)
 				{
+					VT valueItem(std::forward<TValueItem&&>(value));
 					index = keys.Add(std::forward<TKeyForward>(keyAccept));
-					values.Insert(index, std::forward<TValueItem&&>(value));
+					values.Insert(index, std::move(valueItem));
 				}
 				else
 				{
@@ -112,8 +113,9 @@ namespace vl
 				TKeyAccept keyAccept = memory_management::RefOrConvert<KT>(std::forward<TKeyItem&&>(key));
 
 				CHECK_ERROR(!keys.Contains(KeyType<KT>::GetKeyValue(keyAccept)), L"Dictionary<KT, KK, ValueContainer, VT, VK>::Add(const KT&, const VT&)#Key already exists.");
+				VT valueItem(std::forward<TValueItem&&>(value));
 				vint index = keys.Add(std::forward<TKeyForward>(keyAccept));
-				values.Insert(index, std::forward<TValueItem&&>(value));
+				values.Insert(index, std::move(valueItem));
 
 				return true;
 			}
@@ -379,6 +381,7 @@ namespace vl
 				using TKeyForward = memory_management::ForwardType<KT, TKeyItem&&>;
 				TKeyAccept keyAccept = memory_management::RefOrConvert<KT>(std::forward<TKeyItem&&>(key));
 
+				VT valueItem(std::forward<TValueItem&&>(value));
 				ValueContainer* target = nullptr;
 				vint index = keys.IndexOf(KeyType<KT>::GetKeyValue(keyAccept));
 				if (index == -1)
@@ -390,7 +393,7 @@ namespace vl
 				{
 					target = values[index];
 				}
-				target->Add(std::forward<TValueItem&&>(value));
+				target->Add(std::move(valueItem));
 				return true;
 			}
 		public:
diff --git a/Source/Collections/List.h b/Source/Collections/List.h
index fb6d43b..6aa8238 100644
--- a/Source/Collections/List.h
+++ b/Source/Collections/List.h
@@ -462,6 +462,11 @@ ListBase
 		protected:
 			vint					capacity = 0;
 
+			bool IsOwnedItem(const T& item)const
+			{
+				return this->buffer <= &item && &item < this->buffer + this->count;
+			}
+
 		public:
 			ListBase() = default;
 			~ListBase()
@@ -605,6 +610,11 @@ List
 			vint Insert(vint index, const T& item)
 			{
 				CHECK_ERROR(index >= 0 && index <= this->count, L"List<T>::Insert(vint, const T&)#Argument index not in range.");
+				if (this->IsOwnedItem(item))
+				{
+					T copied(item);
+					return Insert(index, std::move(copied));
+				}
 				memory_management::InsertUninitializedItems(this->buffer, this->capacity, this->count, index, 1);
 				memory_management::CallCopyCtors(&this->buffer[index], &item, 1);
 				return index;
@@ -617,6 +627,11 @@ List
 			vint Insert(vint index, T&& item)
 			{
 				CHECK_ERROR(index >= 0 && index <= this->count, L"List<T>::Insert(vint, const T&)#Argument index not in range.");
+				if (this->IsOwnedItem(item))
+				{
+					T moved(std::move(item));
+					return Insert(index, std::move(moved));
+				}
 				memory_management::InsertUninitializedItems(this->buffer, this->capacity, this->count, index, 1);
 				memory_management::CallMoveCtors(&this->buffer[index], &item, 1);
 				return index;
@@ -729,6 +744,11 @@ SortedList
 			vint Insert(vint index, const T& item)
 			{
 				bool uninitialized = false;
+				if (this->IsOwnedItem(item))
+				{
+					T copied(item);
+					return Insert(index, std::move(copied));
+				}
 				memory_management::InsertUninitializedItems(this->buffer, this->capacity, this->count, index, 1);
 				memory_management::CallCopyCtors(&this->buffer[index], &item, 1);
 				return index;
@@ -737,6 +757,11 @@ SortedList
 			vint Insert(vint index, T&& item)
 			{
 				bool uninitialized = false;
+				if (this->IsOwnedItem(item))
+				{
+					T moved(std::move(item));
+					return Insert(index, std::move(moved));
+				}
 				memory_management::InsertUninitializedItems(this->buffer, this->capacity, this->count, index, 1);
 				memory_management::CallMoveCtors(&this->buffer[index], &item, 1);
 				return index;
-- 
2.43.0


From 7f35400a3c21a6697dc12aeb19aebc8fe04faa56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:34 +0000
Subject: [PATCH 04/22] fix: reject negative and overflowing counts in
 RemoveRange, Sub and Remove

A negative count passed the range check (index + count stayed in range) and
made RemoveRange write past the end of the buffer; a huge count overflowed.
---
 Source/Collections/List.h | 2 +-
 Source/Strings/String.h   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/Source/Collections/List.h b/Source/Collections/List.h
index 6aa8238..7f73617 100644
--- a/Source/Collections/List.h
+++ b/Source/Collections/List.h
@@ -527,7 +527,7 @@ ListBase
 			{
 				vint previousCount = this->count;
 				CHECK_ERROR(index >= 0 && index <= this->count, L"ListBase<T>::RemoveRange(vint, vint)#Argument index not in range.");
-				CHECK_ERROR(index + _count >= 0 && index + _count <= this->count, L"ListBase<T,K>::RemoveRange(vint, vint)#Argument _count not in range.");
+				CHECK_ERROR(_count >= 0 && _count <= this->count - index, L"ListBase<T,K>::RemoveRange(vint, vint)#Argument _count not in range.");
 				memory_management::CallMoveAssignmentsOverlapped(&this->buffer[index], &this->buffer[index + _count], this->count - index - _count);
 				this->count -= _count;
 				memory_management::ReleaseUnnecessaryBuffer(this->buffer, this->capacity, previousCount, this->count);
diff --git a/Source/Strings/String.h b/Source/Strings/String.h
index 3e0f206..19d0843 100644
--- a/Source/Strings/String.h
+++ b/Source/Strings/String.h
@@ -462,7 +462,7 @@ namespace vl
 		ObjectString<T> Sub(vint index, vint count)const
 		{
 			CHECK_ERROR(index>=0 && index<=length, L"ObjectString<T>::Sub(vint, vint)#Argument index not in range.");
-			CHECK_ERROR(index+count>=0 && index+count<=length, L"ObjectString<T>::Sub(vint, vint)#Argument count not in range.");
+			CHECK_ERROR(count>=0 && count<=length-index, L"ObjectString<T>::Sub(vint, vint)#Argument count not in range.");
 			return SubUnsafe(index, count);
 		}
 
@@ -480,7 +480,7 @@ namespace vl
 		ObjectString<T> Remove(vint index, vint count)const
 		{
 			CHECK_ERROR(index>=0 && index<length, L"ObjectString<T>::Remove(vint, vint)#Argument index not in range.");
-			CHECK_ERROR(index+count>=0 && index+count<=length, L"ObjectString<T>::Remove(vint, vint)#Argument count not in range.");
+			CHECK_ERROR(count>=0 && count<=length-index, L"ObjectString<T>::Remove(vint, vint)#Argument count not in range.");
 			return ReplaceUnsafe(ObjectString<T>(), index, count);
 		}
 
-- 
2.43.0


From 288ea0fee70a93661b5f644cef914dbbd9bdf652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:10 +0000
Subject: [PATCH 05/22] fix: Dictionary and Group enumerators survive Reset and
 keep their position in Clone

Reset looked up the element at index -1 and crashed; a clone lost the current
element and crashed when it was read.
---
 Source/Collections/Dictionary.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/Source/Collections/Dictionary.h b/Source/Collections/Dictionary.h
index bc1beb2..d45f90b 100644
--- a/Source/Collections/Dictionary.h
+++ b/Source/Collections/Dictionary.h
@@ -35,7 +35,7 @@ namespace vl
 
 				void UpdateCurrent()
 				{
-					if(index<container->Count())
+					if(0<=index && index<container->Count())
 					{
 						current = { container->Keys().Get(index),container->Values().Get(index) };
 					}
@@ -45,6 +45,7 @@ namespace vl
 				{
 					container=_container;
 					index=_index;
+					UpdateCurrent();
 				}
 				
 				IEnumerator<KVPair>* Clone()const override
@@ -290,10 +291,10 @@ namespace vl
 
 				void UpdateCurrent()
 				{
-					if (keyIndex < container->Count())
+					if (0 <= keyIndex && keyIndex < container->Count())
 					{
 						const ValueContainer& values = container->GetByIndex(keyIndex);
-						if (valueIndex < values.Count())
+						if (0 <= valueIndex && valueIndex < values.Count())
 						{
 							current = { container->Keys().Get(keyIndex) ,values.Get(valueIndex) };
 						}
@@ -305,6 +306,7 @@ namespace vl
 					container=_container;
 					keyIndex=_keyIndex;
 					valueIndex=_valueIndex;
+					UpdateCurrent();
 				}
 				
 				IEnumerator<KVPair>* Clone()const override
-- 
2.43.0


From 2610d75508393bfb3a0043c6f06f9ad9a7a2a8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:56 +0000
Subject: [PATCH 06/22] fix: Group::Remove(key, value) returns false when the
 value is not associated to the key

---
 Source/Collections/Dictionary.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Collections/Dictionary.h b/Source/Collections/Dictionary.h
index d45f90b..f4f1766 100644
--- a/Source/Collections/Dictionary.h
+++ b/Source/Collections/Dictionary.h
@@ -583,7 +583,7 @@ namespace vl
 				if(index!=-1)
 				{
 					auto target=values[index];
-					target->Remove(value);
+					if(!target->Remove(value)) return false;
 					if(target->Count()==0)
 					{
 						keys.RemoveAt(index);
-- 
2.43.0


From 5c1b3526942e99bba12a558de60dca0ec182fd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:18 +0000
Subject: [PATCH 07/22] fix: a Skip enumerator reports index -1 before its
 first element

It reported -1-count, which made Skip(n).Take(0) yield an element.
---
 Source/Collections/OperationSequence.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Collections/OperationSequence.h b/Source/Collections/OperationSequence.h
index b0a1b4b..9ebc4ae 100644
--- a/Source/Collections/OperationSequence.h
+++ b/Source/Collections/OperationSequence.h
@@ -105,7 +105,7 @@ Skip
 
 			vint Index()const override
 			{
-				return enumerator->Index()-count;
+				return skipped ? enumerator->Index()-count : -1;
 			}
 
 			bool Next()override
-- 
2.43.0


From 02c5be15751709dc623502594b8a9dc88af901e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:35 +0000
Subject: [PATCH 08/22] fix: wlower and wupper no longer truncate characters to
 8 bits on Linux

---
 Source/Strings/String.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Source/Strings/String.cpp b/Source/Strings/String.cpp
index f1f7204..5fa2a82 100644
--- a/Source/Strings/String.cpp
+++ b/Source/Strings/String.cpp
@@ -102,7 +102,7 @@ namespace vl
 	{
 		while(*buffer)
 		{
-			*buffer=(char)towlower(*buffer);
+			*buffer=(wchar_t)towlower(*buffer);
 			buffer++;
 		}
 	}
@@ -111,7 +111,7 @@ namespace vl
 	{
 		while(*buffer)
 		{
-			*buffer=(char)towupper(*buffer);
+			*buffer=(wchar_t)towupper(*buffer);
 			buffer++;
 		}
 	}
-- 
2.43.0


From 0f917c260bd2ac63c9fa58e6cd56acfc987844bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:54 +0000
Subject: [PATCH 09/22] fix: atof_test and wtof_test report failure for an
 empty string

strtod consumes nothing from an empty string, which was taken for success,
unlike every integer conversion next to them.
---
 Source/Strings/String.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Source/Strings/String.cpp b/Source/Strings/String.cpp
index 5fa2a82..dfe0091 100644
--- a/Source/Strings/String.cpp
+++ b/Source/Strings/String.cpp
@@ -194,7 +194,7 @@ namespace vl
 	{
 		char* endptr = 0;
 		double result = strtod(string.Buffer(), &endptr);
-		success = endptr == string.Buffer() + string.Length();
+		success = string.Length() > 0 && endptr == string.Buffer() + string.Length();
 		return result;
 	}
 
@@ -202,7 +202,7 @@ namespace vl
 	{
 		wchar_t* endptr = 0;
 		double result = wcstod(string.Buffer(), &endptr);
-		success = endptr == string.Buffer() + string.Length();
+		success = string.Length() > 0 && endptr == string.Buffer() + string.Length();
 		return result;
 	}
 
-- 
2.43.0


From cacd60a2ca4aedef782077f818ef307eaa857202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:53 +0000
Subject: [PATCH 10/22] fix: local/UTC conversion is no longer one hour off
 during daylight saving time

gmtime() sets tm_isdst to 0, so mktime() interpreted the fields as standard
time even when daylight saving time was in effect.
---
 Source/Primitives/DateTime.Linux.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Source/Primitives/DateTime.Linux.cpp b/Source/Primitives/DateTime.Linux.cpp
index 8cd4277..c14f003 100644
--- a/Source/Primitives/DateTime.Linux.cpp
+++ b/Source/Primitives/DateTime.Linux.cpp
@@ -98,6 +98,7 @@ DateTime
 			struct timeval tv;
 			gettimeofday(&tv, nullptr);
 			tm* timeinfo = gmtime(&tv.tv_sec);
+			timeinfo->tm_isdst = -1;
 			return ConvertTMTToOSInternal(timeinfo, tv.tv_usec / 1000);
 		}
 
@@ -108,6 +109,7 @@ DateTime
 			OSInternalToTime(osInternal, timer, milliseconds);
 
 			tm* timeinfo = gmtime(&timer);
+			timeinfo->tm_isdst = -1;
 			return ConvertTMTToOSInternal(timeinfo, milliseconds);
 		}
 
@@ -118,7 +120,9 @@ DateTime
 			OSInternalToTime(osInternal, timer, milliseconds);
 
 			time_t localTimer = mktime(localtime(&timer));
-			time_t utcTimer = mktime(gmtime(&timer));
+			tm* timeinfo = gmtime(&timer);
+			timeinfo->tm_isdst = -1;
+			time_t utcTimer = mktime(timeinfo);
 			timer += localTimer - utcTimer;
 
 			TimeToOSInternal(timer, milliseconds, osInternal);
-- 
2.43.0


From 53c2888d214f8239efe023ba3e337b83bc91744e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:30 +0000
Subject: [PATCH 11/22] fix: DateTime conversions no longer share the static
 buffer of localtime/gmtime

Concurrent conversions in different threads overwrote each other's fields;
use the reentrant variants.
---
 Source/Primitives/DateTime.Linux.cpp | 34 ++++++++++++++++------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/Source/Primitives/DateTime.Linux.cpp b/Source/Primitives/DateTime.Linux.cpp
index c14f003..2027752 100644
--- a/Source/Primitives/DateTime.Linux.cpp
+++ b/Source/Primitives/DateTime.Linux.cpp
@@ -81,25 +81,28 @@ DateTime
 			vint milliseconds;
 			OSInternalToTime(osInternal, timer, milliseconds);
 
-			tm* timeinfo = localtime(&timer);
-			return ConvertTMToDateTime(timeinfo, milliseconds);
+			tm timeinfo;
+			localtime_r(&timer, &timeinfo);
+			return ConvertTMToDateTime(&timeinfo, milliseconds);
 		}
 
 		vuint64_t LocalTime() override
 		{
 			struct timeval tv;
 			gettimeofday(&tv, nullptr);
-			tm* timeinfo = localtime(&tv.tv_sec);
-			return ConvertTMTToOSInternal(timeinfo, tv.tv_usec / 1000);
+			tm timeinfo;
+			localtime_r(&tv.tv_sec, &timeinfo);
+			return ConvertTMTToOSInternal(&timeinfo, tv.tv_usec / 1000);
 		}
 
 		vuint64_t UtcTime() override
 		{
 			struct timeval tv;
 			gettimeofday(&tv, nullptr);
-			tm* timeinfo = gmtime(&tv.tv_sec);
-			timeinfo->tm_isdst = -1;
-			return ConvertTMTToOSInternal(timeinfo, tv.tv_usec / 1000);
+			tm timeinfo;
+			gmtime_r(&tv.tv_sec, &timeinfo);
+			timeinfo.tm_isdst = -1;
+			return ConvertTMTToOSInternal(&timeinfo, tv.tv_usec / 1000);
 		}
 
 		vuint64_t LocalToUtcTime(vuint64_t osInternal) override
@@ -108,9 +111,10 @@ DateTime
 			vint milliseconds;
 			OSInternalToTime(osInternal, timer, milliseconds);
 
-			tm* timeinfo = gmtime(&timer);
-			timeinfo->tm_isdst = -1;
-			return ConvertTMTToOSInternal(timeinfo, milliseconds);
+			tm timeinfo;
+			gmtime_r(&timer, &timeinfo);
+			timeinfo.tm_isdst = -1;
+			return ConvertTMTToOSInternal(&timeinfo, milliseconds);
 		}
 
 		vuint64_t UtcToLocalTime(vuint64_t osInternal) override
@@ -119,10 +123,12 @@ DateTime
 			vint milliseconds;
 			OSInternalToTime(osInternal, timer, milliseconds);
 
-			time_t localTimer = mktime(localtime(&timer));
-			tm* timeinfo = gmtime(&timer);
-			timeinfo->tm_isdst = -1;
-			time_t utcTimer = mktime(timeinfo);
+			tm timeinfo;
+			localtime_r(&timer, &timeinfo);
+			time_t localTimer = mktime(&timeinfo);
+			gmtime_r(&timer, &timeinfo);
+			timeinfo.tm_isdst = -1;
+			time_t utcTimer = mktime(&timeinfo);
 			timer += localTimer - utcTimer;
 
 			TimeToOSInternal(timer, milliseconds, osInternal);
-- 
2.43.0


From c426c41eaf382e31f82966fb10c3751acc39f92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:05 +0000
Subject: [PATCH 12/22] fix: Event passes the same arguments to every callback

An rvalue argument was moved into the first callback, so all other callbacks
received a moved-from value.
---
 Source/Primitives/Event.h | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/Source/Primitives/Event.h b/Source/Primitives/Event.h
index 7dfc3ed..c6eb928 100644
--- a/Source/Primitives/Event.h
+++ b/Source/Primitives/Event.h
@@ -44,6 +44,20 @@ namespace vl
 		};
  
 		collections::SortedList<Ptr<EventHandlerImpl>>	handlers;
+
+		// every callback receives the same argument, so an argument is only moved when the callback could not accept it otherwise
+		template<typename TArg, typename TArg2>
+		static decltype(auto) ForwardArgument(std::remove_reference_t<TArg2>& arg)
+		{
+			if constexpr (std::is_convertible_v<std::remove_reference_t<TArg2>&, TArg>)
+			{
+				return (arg);
+			}
+			else
+			{
+				return static_cast<TArg2&&>(arg);
+			}
+		}
 	public:
 		NOT_COPYABLE(Event);
 		Event() = default;
@@ -98,7 +112,7 @@ namespace vl
 		{
 			for(vint i = 0; i < handlers.Count(); i++)
 			{
-				handlers[i]->function(std::forward<TArgs2&&>(args)...);
+				handlers[i]->function(ForwardArgument<TArgs, TArgs2>(args)...);
 			}
 		}
 	};
-- 
2.43.0


From 75870f0c07096cdc9e478a963925644d279165b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:30 +0000
Subject: [PATCH 13/22] fix: Event invokes every attached callback once even if
 callbacks add or remove callbacks

Removing a callback while the event was being raised shifted the handler list
under the loop and skipped another callback; adding one could repeat one.
---
 Source/Primitives/Event.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/Source/Primitives/Event.h b/Source/Primitives/Event.h
index c6eb928..4cd4ef1 100644
--- a/Source/Primitives/Event.h
+++ b/Source/Primitives/Event.h
@@ -110,9 +110,18 @@ namespace vl
 		template<typename... TArgs2>
 		void operator()(TArgs2&& ...args)const
 		{
+			// callbacks are allowed to add or remove callbacks
+			collections::List<Ptr<EventHandlerImpl>> invoking;
 			for(vint i = 0; i < handlers.Count(); i++)
 			{
-				handlers[i]->function(ForwardArgument<TArgs, TArgs2>(args)...);
+				invoking.Add(handlers[i]);
+			}
+			for(vint i = 0; i < invoking.Count(); i++)
+			{
+				if(invoking[i]->attached)
+				{
+					invoking[i]->function(ForwardArgument<TArgs, TArgs2>(args)...);
+				}
 			}
 		}
 	};
-- 
2.43.0


From 38ef70f1a02e016ab1aa5a6f7ec1896af34f3891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:08 +0000
Subject: [PATCH 14/22] fix: Variant stores its element at the alignment the
 element type requires

The buffer followed a vint member, so elements with alignment 16 or more were
constructed at a misaligned address.
---
 Source/Primitives/Variant.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Primitives/Variant.h b/Source/Primitives/Variant.h
index 2cfe3ae..0401939 100644
--- a/Source/Primitives/Variant.h
+++ b/Source/Primitives/Variant.h
@@ -275,7 +275,7 @@ namespace vl
 
 		static constexpr std::size_t	MaxSize = variant_internal::MaxOf(sizeof(TElements)...);
 		vint							index = -1;
-		char							buffer[MaxSize];
+		alignas(TElements...) char		buffer[MaxSize];
 
 	public:
 		Variant()
-- 
2.43.0


From 021ae61d6d243900eb443ef333c9443fd5bf6159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:42 +0000
Subject: [PATCH 15/22] fix: copying a SortedList copies it instead of emptying
 the source

The copy constructor cast away const and moved the source's elements out.
---
 Source/Collections/List.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Source/Collections/List.h b/Source/Collections/List.h
index 7f73617..367acb1 100644
--- a/Source/Collections/List.h
+++ b/Source/Collections/List.h
@@ -804,8 +804,9 @@ SortedList
 			SortedList<T>& operator=(SortedList<T> && _move) = default;
 
 			SortedList(const SortedList<T>&xs)
-				: ListBase<T>(std::move(const_cast<ListBase<T>&>(static_cast<const ListBase<T>&>(xs))))
 			{
+				memory_management::InsertUninitializedItems(this->buffer, this->capacity, this->count, 0, xs.count);
+				memory_management::CallCopyCtors(this->buffer, xs.buffer, xs.count);
 			}
 
 			/// <summary>Test does the list contain a value or not.</summary>
-- 
2.43.0


From 4715c3d54cd31d7f38a68fe959be24171d18012f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:23 +0000
Subject: [PATCH 16/22] fix: reject malformed UTF-8 when decoding

The validity check at the end of the decoder was unreachable, so surrogates
were accepted; continuation bytes and overlong forms were never checked, so a
stray continuation byte swallowed the character after it.
---
 Source/Strings/Conversion.cpp | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/Source/Strings/Conversion.cpp b/Source/Strings/Conversion.cpp
index 7675ad1..75e18e9 100644
--- a/Source/Strings/Conversion.cpp
+++ b/Source/Strings/Conversion.cpp
@@ -120,18 +120,23 @@ UtfConversion<char8_t>
 			const vuint8_t* cs = reinterpret_cast<const vuint8_t*>(source);
 			vuint32_t& d = reinterpret_cast<vuint32_t&>(dest);
 			if (sourceLength <= 0) return -1;
+			vint result = -1;
 
 			if (cs[0] < 0b10000000U)
 			{
 				d = cs[0];
 				return 1;
 			}
+			else if (cs[0] < 0b11000000U)
+			{
+				return -1;
+			}
 			else if (cs[0] < 0b11100000U)
 			{
 				if (sourceLength < 2) return -1;
 				d = ((static_cast<vuint32_t>(cs[0]) & 0b00011111U) << 6) |
 					((static_cast<vuint32_t>(cs[1]) & 0b00111111U));
-				return 2;
+				result = 2;
 			}
 			else if (cs[0] < 0b11110000U)
 			{
@@ -139,7 +144,7 @@ UtfConversion<char8_t>
 				d = ((static_cast<vuint32_t>(cs[0]) & 0b00001111U) << 12) |
 					((static_cast<vuint32_t>(cs[1]) & 0b00111111U) << 6) |
 					((static_cast<vuint32_t>(cs[2]) & 0b00111111U));
-				return 3;
+				result = 3;
 			}
 			else if (cs[0] < 0b11111000U)
 			{
@@ -148,7 +153,7 @@ UtfConversion<char8_t>
 					((static_cast<vuint32_t>(cs[1]) & 0b00111111U) << 12) |
 					((static_cast<vuint32_t>(cs[2]) & 0b00111111U) << 6) |
 					((static_cast<vuint32_t>(cs[3]) & 0b00111111U));
-				return 4;
+				result = 4;
 			}
 			else if (cs[0] < 0b11111100U)
 			{
@@ -158,9 +163,9 @@ UtfConversion<char8_t>
 					((static_cast<vuint32_t>(cs[2]) & 0b00111111U) << 12) |
 					((static_cast<vuint32_t>(cs[3]) & 0b00111111U) << 6) |
 					((static_cast<vuint32_t>(cs[4]) & 0b00111111U));
-				return 5;
+				result = 5;
 			}
-			else
+			else if (cs[0] < 0b11111110U)
 			{
 				if (sourceLength < 6) return -1;
 				d = ((static_cast<vuint32_t>(cs[0]) & 0b00000001U) << 30) |
@@ -169,10 +174,22 @@ UtfConversion<char8_t>
 					((static_cast<vuint32_t>(cs[3]) & 0b00111111U) << 12) |
 					((static_cast<vuint32_t>(cs[4]) & 0b00111111U) << 6) |
 					((static_cast<vuint32_t>(cs[5]) & 0b00111111U));
-				return 6;
+				result = 6;
 			}
-			if (IsInvalid(dest)) return -1;
-			return 1;
+			else
+			{
+				return -1;
+			}
+
+			for (vint i = 1; i < result; i++)
+			{
+				if ((cs[i] & 0b11000000U) != 0b10000000U) return -1;
+			}
+
+			// surrogates are invalid, and a code point should be encoded in the shortest form
+			char8_t encoded[BufferLength];
+			if (From32(dest, encoded) != result) return -1;
+			return result;
 		}
 
 /***********************************************************************
-- 
2.43.0


From 0816c85ccae06259543883e1746f6c407b680013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:51 +0000
Subject: [PATCH 17/22] fix: Console::Write no longer emits a NUL character
 after every string on Linux

---
 Source/Console.Linux.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Console.Linux.cpp b/Source/Console.Linux.cpp
index d7e51dc..18ea539 100644
--- a/Source/Console.Linux.cpp
+++ b/Source/Console.Linux.cpp
@@ -23,7 +23,7 @@ Console
 		void Console::Write(const wchar_t* string, vint length)
 		{
 			std::wstring s(string, string + length);
-			std::wcout << s << std::ends;
+			std::wcout << s;
 		}
 
 		WString Console::Read()
-- 
2.43.0


From ba69dfdbd4f9a7aeac2f1b257c7f132a87585f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:32 +0000
Subject: [PATCH 18/22] fix: Nullable can be assigned from something its own
 value owns

---
 Source/Primitives/Nullable.h | 44 ++++++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 15 deletions(-)

diff --git a/Source/Primitives/Nullable.h b/Source/Primitives/Nullable.h
index 1147677..0f0f7ee 100644
--- a/Source/Primitives/Nullable.h
+++ b/Source/Primitives/Nullable.h
@@ -105,10 +105,18 @@ namespace vl
 				}
 			}
 
-			Reset();
-			new (&object)T(value);
-			initialized = true;
-			return *this;
+			if constexpr (std::is_move_constructible_v<T>)
+			{
+				// the value could be owned by this nullable, so it is copied before being destroyed
+				return *this = Nullable<T>(value);
+			}
+			else
+			{
+				Reset();
+				new (&object)T(value);
+				initialized = true;
+				return *this;
+			}
 		}
 
 		/// <summary>Replace the data inside this nullable value by moving from data.</summary>
@@ -125,10 +133,8 @@ namespace vl
 				}
 			}
 
-			Reset();
-			new (&object)T(std::move(value));
-			initialized = true;
-			return *this;
+			// the value could be owned by this nullable, so it is moved before being destroyed
+			return *this = Nullable<T>(std::move(value));
 		}
 
 		/// <summary>Replace the data inside this nullable value by copying from another nullable value.</summary>
@@ -151,9 +157,17 @@ namespace vl
 					}
 				}
 
-				Reset();
-				new (&object)T(nullable.object);
-				initialized = true;
+				if constexpr (std::is_move_constructible_v<T>)
+				{
+					// the argument could be owned by this nullable, so it is copied before anything is destroyed
+					return *this = Nullable<T>(nullable);
+				}
+				else
+				{
+					Reset();
+					new (&object)T(nullable.object);
+					initialized = true;
+				}
 			}
 			return *this;
 		}
@@ -169,19 +183,19 @@ namespace vl
 			}
 			else if (this != &nullable)
 			{
+				// the argument could be owned by this nullable, so it becomes empty before anything is destroyed
+				Nullable<T> moved(std::move(nullable));
 				if constexpr (std::is_move_assignable_v<T>)
 				{
 					if (initialized)
 					{
-						object = std::move(nullable.object);
-						nullable.Reset();
+						object = std::move(moved.object);
 						return *this;
 					}
 				}
 
 				Reset();
-				new (&object)T(std::move(nullable.object));
-				nullable.Reset();
+				new (&object)T(std::move(moved.object));
 				initialized = true;
 			}
 			return *this;
-- 
2.43.0


From adbbdaef20790c920b43caf6e9529278ef98fca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:32 +0000
Subject: [PATCH 19/22] fix: Variant can be assigned from something its own
 element owns

---
 Source/Primitives/Variant.h | 58 +++++++++++++++++++++++++++----------
 1 file changed, 43 insertions(+), 15 deletions(-)

diff --git a/Source/Primitives/Variant.h b/Source/Primitives/Variant.h
index 0401939..a6307ff 100644
--- a/Source/Primitives/Variant.h
+++ b/Source/Primitives/Variant.h
@@ -277,6 +277,29 @@ namespace vl
 		vint							index = -1;
 		alignas(TElements...) char		buffer[MaxSize];
 
+	private:
+		template<typename TConstruct>
+		void Replace(vint newIndex, TConstruct&& construct)
+		{
+			if constexpr ((std::is_move_constructible_v<TElements> && ...))
+			{
+				// the new element could be constructed from something owned by the current element
+				// so it is constructed before destroying the current element
+				alignas(TElements...) char newBuffer[MaxSize];
+				construct(newIndex, newBuffer);
+				ElementPack::Dtor(index, buffer);
+				index = newIndex;
+				ElementPack::MoveCtor(index, buffer, newBuffer);
+				ElementPack::Dtor(index, newBuffer);
+			}
+			else
+			{
+				ElementPack::Dtor(index, buffer);
+				index = newIndex;
+				construct(index, buffer);
+			}
+		}
+
 	public:
 		Variant()
 			requires(std::is_default_constructible_v<TypeTupleElement<0, TypeTuple<TElements...>>>)
@@ -349,9 +372,10 @@ namespace vl
 				}
 				else
 				{
-					ElementPack::Dtor(index, buffer);
-					index = variant.index;
-					ElementPack::CopyCtor(index, buffer, variant.buffer);
+					Replace(variant.index, [&variant](vint i, char* target)
+					{
+						ElementPack::CopyCtor(i, target, variant.buffer);
+					});
 				}
 			}
 			return *this;
@@ -367,9 +391,10 @@ namespace vl
 				}
 				else
 				{
-					ElementPack::Dtor(index, buffer);
-					index = variant.index;
-					ElementPack::MoveCtor(index, buffer, variant.buffer);
+					Replace(variant.index, [&variant](vint i, char* target)
+					{
+						ElementPack::MoveCtor(i, target, variant.buffer);
+					});
 				}
 			}
 			return *this;
@@ -386,9 +411,10 @@ namespace vl
 			}
 			else
 			{
-				ElementPack::Dtor(index, buffer);
-				index = i;
-				ElementPack::CopyCtor(VariantIndex<i>{}, buffer, element);
+				Replace(i, [&element](vint, char* target)
+				{
+					ElementPack::CopyCtor(VariantIndex<IndexOf<T>>{}, target, element);
+				});
 			}
 			return *this;
 		}
@@ -404,9 +430,10 @@ namespace vl
 			}
 			else
 			{
-				ElementPack::Dtor(index, buffer);
-				index = i;
-				ElementPack::MoveCtor(VariantIndex<i>{}, buffer, std::move(element));
+				Replace(i, [&element](vint, char* target)
+				{
+					ElementPack::MoveCtor(VariantIndex<IndexOf<T>>{}, target, std::move(element));
+				});
 			}
 			return *this;
 		}
@@ -420,9 +447,10 @@ namespace vl
 			}
 			else
 			{
-				ElementPack::Dtor(index, buffer);
-				index = I;
-				ElementPack::Ctor(i, buffer, std::forward<T&&>(value));
+				Replace(I, [&value](vint, char* target)
+				{
+					ElementPack::Ctor(VariantIndex<I>{}, target, std::forward<T&&>(value));
+				});
 			}
 			return *this;
 		}
-- 
2.43.0


From 88f96c3aa69adfeb77f09a6da32d890a71a74eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:42 +0000
Subject: [PATCH 20/22] fix: containers store elements at the alignment the
 element type requires

---
 Source/Collections/List.h | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/Source/Collections/List.h b/Source/Collections/List.h
index 367acb1..9e52527 100644
--- a/Source/Collections/List.h
+++ b/Source/Collections/List.h
@@ -7,6 +7,7 @@ Licensed under https://github.com/vczh-libraries/License
 #define VCZH_COLLECTIONS_LIST
 
 #include <string.h>
+#include <new>
 #include "Interfaces.h"
 
 #ifdef VCZH_CHECK_MEMORY_LEAKS_NEW
@@ -110,14 +111,28 @@ Memory Management
 			T* AllocateBuffer(vint size)
 			{
 				if (size <= 0) return nullptr;
-				return (T*)malloc(sizeof(T) * size);
+				if constexpr (alignof(T) > __STDCPP_DEFAULT_NEW_ALIGNMENT__)
+				{
+					return (T*)::operator new(sizeof(T) * size, std::align_val_t(alignof(T)));
+				}
+				else
+				{
+					return (T*)malloc(sizeof(T) * size);
+				}
 			}
 
 			template<typename T>
 			void DeallocateBuffer(T* buffer)
 			{
 				if (buffer == nullptr) return;
-				free(buffer);
+				if constexpr (alignof(T) > __STDCPP_DEFAULT_NEW_ALIGNMENT__)
+				{
+					::operator delete(buffer, std::align_val_t(alignof(T)));
+				}
+				else
+				{
+					free(buffer);
+				}
 			}
 
 			template<typename T>
-- 
2.43.0


From b68b96fe8f98fee8f365ab98ba82043c1cef82ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:44 +0000
Subject: [PATCH 21/22] fix: containers can be move-assigned from something
 their own elements own

---
 Source/Collections/Dictionary.h |  6 ++++--
 Source/Collections/List.h       | 26 ++++++++++++++++----------
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/Source/Collections/Dictionary.h b/Source/Collections/Dictionary.h
index f4f1766..c1de04a 100644
--- a/Source/Collections/Dictionary.h
+++ b/Source/Collections/Dictionary.h
@@ -417,9 +417,11 @@ namespace vl
 			Group<KT, VT>& operator=(const Group<KT, VT>&) = delete;
 			Group<KT, VT>& operator=(Group<KT, VT> && _move)
 			{
+				// the argument could be owned by a value of this group, so it is not touched after any value is destroyed
+				Group<KT, VT> moved(std::move(_move));
 				Clear();
-				keys = std::move(_move.keys);
-				values = std::move(_move.values);
+				keys = std::move(moved.keys);
+				values = std::move(moved.values);
 				return*this;
 			}
 
diff --git a/Source/Collections/List.h b/Source/Collections/List.h
index 9e52527..2965668 100644
--- a/Source/Collections/List.h
+++ b/Source/Collections/List.h
@@ -372,15 +372,18 @@ Array
 			Array<T>& operator=(const Array<T>&) = delete;
 			Array<T>& operator=(Array<T>&& _move)
 			{
-				if (this->buffer)
-				{
-					memory_management::CallDtors(this->buffer, this->count);
-					memory_management::DeallocateBuffer(this->buffer);
-				}
+				// the argument could be owned by an element of this array, so it is not touched after any element is destroyed
+				T* oldBuffer = this->buffer;
+				vint oldCount = this->count;
 				this->buffer = _move.buffer;
 				this->count = _move.count;
 				_move.buffer = nullptr;
 				_move.count = 0;
+				if (oldBuffer)
+				{
+					memory_management::CallDtors(oldBuffer, oldCount);
+					memory_management::DeallocateBuffer(oldBuffer);
+				}
 				return *this;
 			}
 
@@ -507,17 +510,20 @@ ListBase
 			ListBase<T>& operator=(const ListBase<T>&) = delete;
 			ListBase<T>& operator=(ListBase<T>&& _move)
 			{
-				if (this->buffer)
-				{
-					memory_management::CallDtors(this->buffer, this->count);
-					memory_management::DeallocateBuffer(this->buffer);
-				}
+				// the argument could be owned by an element of this container, so it is not touched after any element is destroyed
+				T* oldBuffer = this->buffer;
+				vint oldCount = this->count;
 				this->buffer = _move.buffer;
 				this->count = _move.count;
 				this->capacity = _move.capacity;
 				_move.buffer = nullptr;
 				_move.count = 0;
 				_move.capacity = 0;
+				if (oldBuffer)
+				{
+					memory_management::CallDtors(oldBuffer, oldCount);
+					memory_management::DeallocateBuffer(oldBuffer);
+				}
 				return *this;
 			}
 
-- 
2.43.0


From bedcc581236fcd45f75338207ca300b2ea80f7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:50 +0000
Subject: [PATCH 22/22] fix: for-loops over a sequence no longer leak its
 enumerator when finding the first element throws

The loop iterator owned a raw enumerator and called operator++ in its constructor. When a callback of the sequence threw there,
the destructor did not run and the enumerator, with the callbacks it holds, leaked. The constructors now delegate, so that the
destructor runs.
---
 Source/Collections/OperationForEach.h | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/Source/Collections/OperationForEach.h b/Source/Collections/OperationForEach.h
index c3da1eb..3b19710 100644
--- a/Source/Collections/OperationForEach.h
+++ b/Source/Collections/OperationForEach.h
@@ -27,9 +27,15 @@ Range-Based For-Loop Iterator
 		private:
 			IEnumerator<T>*			iterator;
 
+			// delegated to, so that the enumerator is deleted when the first operator++ throws
+			RangeBasedForLoopIterator(IEnumerator<T>* _iterator)
+				: iterator(_iterator)
+			{
+			}
+
 		public:
 			RangeBasedForLoopIterator(const IEnumerable<T>& enumerable)
-				: iterator(enumerable.CreateEnumerator())
+				: RangeBasedForLoopIterator(enumerable.CreateEnumerator())
 			{
 				operator++();
 			}
@@ -97,10 +103,16 @@ Range-Based For-Loop Iterator with Index
 			IEnumerator<T>*			iterator;
 			vint					index;
 
+			// delegated to, so that the enumerator is deleted when the first operator++ throws
+			RangeBasedForLoopIteratorWithIndex(IEnumerator<T>* _iterator)
+				: iterator(_iterator)
+				, index(-1)
+			{
+			}
+
 		public:
 			RangeBasedForLoopIteratorWithIndex(const IEnumerable<T>& enumerable)
-				: iterator(enumerable.CreateEnumerator())
-				, index(-1)
+				: RangeBasedForLoopIteratorWithIndex(enumerable.CreateEnumerator())
 			{
 				operator++();
 			}
-- 
2.43.0

