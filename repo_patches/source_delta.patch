From 486f151e9fae642cb228f26a79718ab16cec431d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:13 +0000
Subject: [PATCH 01/82] fix: reject dimension numbers the array does not have

---
 DotNetLibrary/src/Array.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DotNetLibrary/src/Array.cpp b/DotNetLibrary/src/Array.cpp
index 1709b9d..be45f39 100644
--- a/DotNetLibrary/src/Array.cpp
+++ b/DotNetLibrary/src/Array.cpp
@@ -145,7 +145,7 @@ namespace DotnetLibrary
 			throw new RankException();
 	}
 	Int32 Array::GetLength(Int32 rank) {
-		if (rank > dimensionCount)
+		if (rank < 0 || rank >= dimensionCount)
 			throw new IndexOutOfRangeException();
 		if (rank == 0)
 			return (dimension1Size);
@@ -156,12 +156,12 @@ namespace DotnetLibrary
 		return (-1);
 	}
 	Int32 Array::GetLowerBound(Int32 rank) {
-		if (rank > dimensionCount)
+		if (rank < 0 || rank >= dimensionCount)
 			throw new IndexOutOfRangeException();
 		return (0);
 	}
 	Int32 Array::GetUpperBound(Int32 rank) {
-		if (rank > dimensionCount)
+		if (rank < 0 || rank >= dimensionCount)
 			throw new IndexOutOfRangeException();
 		return (GetLength(rank) - 1);
 	}
-- 
2.43.0


From a410274a9297d53c71fffabb5f420445cb650ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:14 +0000
Subject: [PATCH 02/82] fix: raise when an array is created with a negative
 size

---
 DotNetLibrary/src/Array.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DotNetLibrary/src/Array.cpp b/DotNetLibrary/src/Array.cpp
index be45f39..d17caaa 100644
--- a/DotNetLibrary/src/Array.cpp
+++ b/DotNetLibrary/src/Array.cpp
@@ -49,6 +49,8 @@ namespace DotnetLibrary
 		data = new char[totalElementCount * DataTypeSize[dataType]];
 	}
 	void Array::InitializeData(DataType dataType, Int32 dimension1Size, Int32 dimension2Size, Int32 dimension3Size) {
+		if (dimension1Size < 0 || dimension2Size < -1 || dimension3Size < -1)
+			throw new OverflowException();
 		this->dataType = dataType;
 		this->dimension1Size = dimension1Size;
 		this->dimension2Size = dimension2Size;
-- 
2.43.0


From c8db759ad05bcda0b1fb8cc24af31a4164514bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:20 +0000
Subject: [PATCH 03/82] fix: allow null in arrays of references

---
 DotNetLibrary/src/Array.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/Array.cpp b/DotNetLibrary/src/Array.cpp
index d17caaa..a0c2223 100644
--- a/DotNetLibrary/src/Array.cpp
+++ b/DotNetLibrary/src/Array.cpp
@@ -266,7 +266,7 @@ namespace DotnetLibrary
 		return (this);
 	}
 	void Array::SetValue(Object* value, Int32 index1, Int32 index2, Int32 index3) {
-		if (value == nullptr)
+		if (value == nullptr && dataType != ObjectType && dataType != StringType)
 			throw new ArgumentNullException();
 		void* addr = Address(index1, index2, index3);
 		switch (dataType)
-- 
2.43.0


From ebe7d87b1707f35810d6bc72c2ceeb9b9107d439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:21 +0000
Subject: [PATCH 04/82] fix: reject objects that are not strings in string
 arrays

---
 DotNetLibrary/src/Array.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DotNetLibrary/src/Array.cpp b/DotNetLibrary/src/Array.cpp
index a0c2223..4657a58 100644
--- a/DotNetLibrary/src/Array.cpp
+++ b/DotNetLibrary/src/Array.cpp
@@ -275,6 +275,8 @@ namespace DotnetLibrary
 				*((Object**) addr) = value;
 				break;
 			case StringType:
+				if (value != nullptr && value->GetRawDataType() != StringType)
+					throw new InvalidCastException();
 				*((Object**) addr) = value;
 				break;
 			case BooleanType:
-- 
2.43.0


From 0c483e09f7c0aefd411e4c3ba6a8a8334468bcd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:22 +0000
Subject: [PATCH 05/82] fix: convert to the element type when storing in UInt64
 arrays

---
 DotNetLibrary/src/Array.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/Array.cpp b/DotNetLibrary/src/Array.cpp
index 4657a58..31b080c 100644
--- a/DotNetLibrary/src/Array.cpp
+++ b/DotNetLibrary/src/Array.cpp
@@ -307,7 +307,7 @@ namespace DotnetLibrary
 				*((Int64*) addr) = value->get_AsInt64();
 				break;
 			case UInt64Type:
-				*((UInt64*) addr) = value->get_AsInt64();
+				*((UInt64*) addr) = value->get_AsUInt64();
 				break;
 			case SingleType:
 				*((Single*) addr) = value->get_AsSingle();
-- 
2.43.0


From 2d5b3bdc55f5ff48c8097b04737cdf7027cbc5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:22 +0000
Subject: [PATCH 06/82] fix: require as many indexes as the array has
 dimensions

---
 DotNetLibrary/src/Array.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/DotNetLibrary/src/Array.cpp b/DotNetLibrary/src/Array.cpp
index 31b080c..dcd5a6d 100644
--- a/DotNetLibrary/src/Array.cpp
+++ b/DotNetLibrary/src/Array.cpp
@@ -174,8 +174,8 @@ namespace DotnetLibrary
 		Int32 arraySize = indexes->dimension1Size;
 		if (arraySize > 3)
 			throw new NotImplementedException();
-		if (arraySize == 0)
-			return (nullptr);
+		if (arraySize != dimensionCount)
+			throw new ArgumentException();
 		Int32 index1 = *(Int32*) indexes->Address(0, -1, -1);
 		Int32 index2 = arraySize > 1 ? *(Int32*) indexes->Address(1, -1, -1) : -1;
 		Int32 index3 = arraySize > 2 ? *(Int32*) indexes->Address(2, -1, -1) : -1;
@@ -333,8 +333,8 @@ namespace DotnetLibrary
 		Int32 arraySize = indexes->dimension1Size;
 		if (arraySize > 3)
 			throw new NotImplementedException();
-		if (arraySize == 0)
-			return;
+		if (arraySize != dimensionCount)
+			throw new ArgumentException();
 		Int32 index1 = *(Int32*) indexes->Address(0, -1, -1);
 		Int32 index2 = arraySize > 1 ? *(Int32*) indexes->Address(1, -1, -1) : -1;
 		Int32 index3 = arraySize > 2 ? *(Int32*) indexes->Address(2, -1, -1) : -1;
-- 
2.43.0


From e7222608182717698e545874aa6f57c721886c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:46 +0000
Subject: [PATCH 07/82] fix: raise when a range lies outside an array

---
 DotNetLibrary/src/Array.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/DotNetLibrary/src/Array.cpp b/DotNetLibrary/src/Array.cpp
index dcd5a6d..0d6d6dd 100644
--- a/DotNetLibrary/src/Array.cpp
+++ b/DotNetLibrary/src/Array.cpp
@@ -342,13 +342,13 @@ namespace DotnetLibrary
 	}
 	void Array::VerifyIndexWithinRangeOfArray(Array* array, Int32 startingIndex, Int32 amountOfElements) {
 		if (array == nullptr)
-			new ArgumentNullException();
+			throw new ArgumentNullException();
 		array->EnsureSingleDimension();
 		if (amountOfElements < 0)
-			new ArgumentNullException();
+			throw new IndexOutOfRangeException();
 		if (startingIndex < 0)
-			new ArgumentNullException();
-		if ((startingIndex + amountOfElements) > array->dimension1Size)
-			new ArgumentNullException();
+			throw new IndexOutOfRangeException();
+		if (startingIndex > array->dimension1Size - amountOfElements)
+			throw new IndexOutOfRangeException();
 	}
 }
-- 
2.43.0


From 5afc240ad344b9fc94801e50e9341b95025bef2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:47 +0000
Subject: [PATCH 08/82] fix: copy overlapping ranges of one array correctly

---
 DotNetLibrary/src/Array.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/Array.cpp b/DotNetLibrary/src/Array.cpp
index 0d6d6dd..c58641f 100644
--- a/DotNetLibrary/src/Array.cpp
+++ b/DotNetLibrary/src/Array.cpp
@@ -105,7 +105,7 @@ namespace DotnetLibrary
 		void* dstAddr = destinationArray->data + (destinationIndex * elementSize);
 		void* srcAddr = sourceArray->data + (sourceIndex * elementSize);
 		Int32 tsz = length * elementSize;
-		memcpy(dstAddr, srcAddr, tsz);
+		memmove(dstAddr, srcAddr, tsz);
 	}
 	void Array::CopyTo(Array* array, Int32 index) {
 		if (array == nullptr)
-- 
2.43.0


From da010085eb10c1ef0d80e864e8b2fa45bbe74e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:48 +0000
Subject: [PATCH 09/82] fix: avoid overflow in the array copy range check

---
 DotNetLibrary/src/Array.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/Array.cpp b/DotNetLibrary/src/Array.cpp
index c58641f..383a916 100644
--- a/DotNetLibrary/src/Array.cpp
+++ b/DotNetLibrary/src/Array.cpp
@@ -96,7 +96,7 @@ namespace DotnetLibrary
 			throw new ArgumentOutOfRangeException();
 		if (sourceIndex < 0 || destinationIndex < 0)
 			throw new ArgumentException();
-		if (sourceIndex + length > sourceArray->totalElementCount || destinationIndex + length > destinationArray->totalElementCount)
+		if (sourceIndex > sourceArray->totalElementCount - length || destinationIndex > destinationArray->totalElementCount - length)
 			throw new ArgumentException();
 		if (sourceArray->get_Rank() != destinationArray->get_Rank())
 			throw new RankException();
-- 
2.43.0


From 3af94e984f849699639484f3503b2731363fca08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:05 +0000
Subject: [PATCH 10/82] fix: compare boxed integers and characters with null
 safely

---
 DotNetLibrary/src/ByteValue.cpp   | 2 +-
 DotNetLibrary/src/CharValue.cpp   | 2 +-
 DotNetLibrary/src/Int16Value.cpp  | 2 +-
 DotNetLibrary/src/Int32Value.cpp  | 2 +-
 DotNetLibrary/src/Int64Value.cpp  | 2 +-
 DotNetLibrary/src/SByteValue.cpp  | 2 +-
 DotNetLibrary/src/UInt16Value.cpp | 2 +-
 DotNetLibrary/src/UInt32Value.cpp | 2 +-
 DotNetLibrary/src/UInt64Value.cpp | 2 +-
 9 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/DotNetLibrary/src/ByteValue.cpp b/DotNetLibrary/src/ByteValue.cpp
index 1ae217b..f4a13ba 100644
--- a/DotNetLibrary/src/ByteValue.cpp
+++ b/DotNetLibrary/src/ByteValue.cpp
@@ -70,7 +70,7 @@ namespace DotnetLibrary
 		return value - ((ByteValue*) valueToCompare)->value;
 	}
 	Boolean ByteValue::Equals(Object* valueToCompare) {
-		if (valueToCompare->GetRawDataType() != ByteType) {
+		if (valueToCompare == nullptr || valueToCompare->GetRawDataType() != ByteType) {
 			return false;
 		}
 		return value == ((ByteValue*) valueToCompare)->value;
diff --git a/DotNetLibrary/src/CharValue.cpp b/DotNetLibrary/src/CharValue.cpp
index 54ee3d7..fe95949 100644
--- a/DotNetLibrary/src/CharValue.cpp
+++ b/DotNetLibrary/src/CharValue.cpp
@@ -68,7 +68,7 @@ namespace DotnetLibrary
 		return value - ((CharValue*) valueToCompare)->value;
 	}
 	bool CharValue::Equals(Object* valueToCompare) {
-		if (valueToCompare->GetRawDataType() != CharType) {
+		if (valueToCompare == nullptr || valueToCompare->GetRawDataType() != CharType) {
 			return false;
 		}
 		return value == ((CharValue*) valueToCompare)->value;
diff --git a/DotNetLibrary/src/Int16Value.cpp b/DotNetLibrary/src/Int16Value.cpp
index 3fee63f..fdea7b4 100644
--- a/DotNetLibrary/src/Int16Value.cpp
+++ b/DotNetLibrary/src/Int16Value.cpp
@@ -71,7 +71,7 @@ namespace DotnetLibrary
 		return value - ((Int16Value*) valueToCompare)->value;
 	}
 	bool Int16Value::Equals(Object* valueToCompare) {
-		if (valueToCompare->GetRawDataType() != Int16Type) {
+		if (valueToCompare == nullptr || valueToCompare->GetRawDataType() != Int16Type) {
 			return false;
 		}
 		return value == ((Int16Value*) valueToCompare)->value;
diff --git a/DotNetLibrary/src/Int32Value.cpp b/DotNetLibrary/src/Int32Value.cpp
index 0842810..8fed08c 100644
--- a/DotNetLibrary/src/Int32Value.cpp
+++ b/DotNetLibrary/src/Int32Value.cpp
@@ -72,7 +72,7 @@ namespace DotnetLibrary
 		return value - ((Int32Value*) valueToCompare)->value;
 	}
 	bool Int32Value::Equals(Object* valueToCompare) {
-		if (valueToCompare->GetRawDataType() != Int32Type) {
+		if (valueToCompare == nullptr || valueToCompare->GetRawDataType() != Int32Type) {
 			return false;
 		}
 		return value == ((Int32Value*) valueToCompare)->value;
diff --git a/DotNetLibrary/src/Int64Value.cpp b/DotNetLibrary/src/Int64Value.cpp
index 8390042..0a00956 100644
--- a/DotNetLibrary/src/Int64Value.cpp
+++ b/DotNetLibrary/src/Int64Value.cpp
@@ -72,7 +72,7 @@ namespace DotnetLibrary
 		return value - ((Int64Value*) valueToCompare)->value;
 	}
 	bool Int64Value::Equals(Object* valueToCompare) {
-		if (valueToCompare->GetRawDataType() != Int64Type) {
+		if (valueToCompare == nullptr || valueToCompare->GetRawDataType() != Int64Type) {
 			return false;
 		}
 		return value == ((Int64Value*) valueToCompare)->value;
diff --git a/DotNetLibrary/src/SByteValue.cpp b/DotNetLibrary/src/SByteValue.cpp
index ad69a9b..c983f7f 100644
--- a/DotNetLibrary/src/SByteValue.cpp
+++ b/DotNetLibrary/src/SByteValue.cpp
@@ -72,7 +72,7 @@ namespace DotnetLibrary
 		return value - ((SByteValue*) valueToCompare)->value;
 	}
 	bool SByteValue::Equals(Object* valueToCompare) {
-		if (valueToCompare->GetRawDataType() != SByteType) {
+		if (valueToCompare == nullptr || valueToCompare->GetRawDataType() != SByteType) {
 			return false;
 		}
 		return value == ((SByteValue*) valueToCompare)->value;
diff --git a/DotNetLibrary/src/UInt16Value.cpp b/DotNetLibrary/src/UInt16Value.cpp
index aa9bf35..31819dc 100644
--- a/DotNetLibrary/src/UInt16Value.cpp
+++ b/DotNetLibrary/src/UInt16Value.cpp
@@ -72,7 +72,7 @@ namespace DotnetLibrary
 		return value - ((UInt16Value*) valueToCompare)->value;
 	}
 	bool UInt16Value::Equals(Object* valueToCompare) {
-		if (valueToCompare->GetRawDataType() != UInt16Type) {
+		if (valueToCompare == nullptr || valueToCompare->GetRawDataType() != UInt16Type) {
 			return false;
 		}
 		return value == ((UInt16Value*) valueToCompare)->value;
diff --git a/DotNetLibrary/src/UInt32Value.cpp b/DotNetLibrary/src/UInt32Value.cpp
index a1aebf7..deff1df 100644
--- a/DotNetLibrary/src/UInt32Value.cpp
+++ b/DotNetLibrary/src/UInt32Value.cpp
@@ -72,7 +72,7 @@ namespace DotnetLibrary
 		return value - ((UInt32Value*) valueToCompare)->value;
 	}
 	bool UInt32Value::Equals(Object* valueToCompare) {
-		if (valueToCompare->GetRawDataType() != UInt32Type) {
+		if (valueToCompare == nullptr || valueToCompare->GetRawDataType() != UInt32Type) {
 			return false;
 		}
 		return value == ((UInt32Value*) valueToCompare)->value;
diff --git a/DotNetLibrary/src/UInt64Value.cpp b/DotNetLibrary/src/UInt64Value.cpp
index d94cd1e..63da17b 100644
--- a/DotNetLibrary/src/UInt64Value.cpp
+++ b/DotNetLibrary/src/UInt64Value.cpp
@@ -72,7 +72,7 @@ namespace DotnetLibrary
 		return value - ((UInt64Value*) valueToCompare)->value;
 	}
 	bool UInt64Value::Equals(Object* valueToCompare) {
-		if (valueToCompare->GetRawDataType() != UInt64Type) {
+		if (valueToCompare == nullptr || valueToCompare->GetRawDataType() != UInt64Type) {
 			return false;
 		}
 		return value == ((UInt64Value*) valueToCompare)->value;
-- 
2.43.0


From 0b9d2cb950e579258581430b86c7938626ab6f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:05 +0000
Subject: [PATCH 11/82] fix: compare wide integers without overflow

---
 DotNetLibrary/src/Int32Value.cpp  | 4 ++--
 DotNetLibrary/src/Int64Value.cpp  | 4 ++--
 DotNetLibrary/src/UInt32Value.cpp | 4 ++--
 DotNetLibrary/src/UInt64Value.cpp | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/DotNetLibrary/src/Int32Value.cpp b/DotNetLibrary/src/Int32Value.cpp
index 8fed08c..800bb8d 100644
--- a/DotNetLibrary/src/Int32Value.cpp
+++ b/DotNetLibrary/src/Int32Value.cpp
@@ -60,7 +60,7 @@ namespace DotnetLibrary
 		return (Double) value;
 	}
 	Int32 Int32Value::CompareTo(Int32 valueToCompare) {
-		return value - valueToCompare;
+		return value < valueToCompare ? -1 : value > valueToCompare ? 1 : 0;
 	}
 	Int32 Int32Value::CompareTo(Object* valueToCompare) {
 		if (valueToCompare == nullptr) {
@@ -69,7 +69,7 @@ namespace DotnetLibrary
 		if (valueToCompare->GetRawDataType() != Int32Type) {
 			throw new ArgumentException();
 		}
-		return value - ((Int32Value*) valueToCompare)->value;
+		return CompareTo(((Int32Value*) valueToCompare)->value);
 	}
 	bool Int32Value::Equals(Object* valueToCompare) {
 		if (valueToCompare == nullptr || valueToCompare->GetRawDataType() != Int32Type) {
diff --git a/DotNetLibrary/src/Int64Value.cpp b/DotNetLibrary/src/Int64Value.cpp
index 0a00956..ac31d8f 100644
--- a/DotNetLibrary/src/Int64Value.cpp
+++ b/DotNetLibrary/src/Int64Value.cpp
@@ -60,7 +60,7 @@ namespace DotnetLibrary
 		return (Double) value;
 	}
 	Int32 Int64Value::CompareTo(Int64 valueToCompare) {
-		return value - valueToCompare;
+		return value < valueToCompare ? -1 : value > valueToCompare ? 1 : 0;
 	}
 	Int32 Int64Value::CompareTo(Object* valueToCompare) {
 		if (valueToCompare == nullptr) {
@@ -69,7 +69,7 @@ namespace DotnetLibrary
 		if (valueToCompare->GetRawDataType() != Int64Type) {
 			throw new ArgumentException();
 		}
-		return value - ((Int64Value*) valueToCompare)->value;
+		return CompareTo(((Int64Value*) valueToCompare)->value);
 	}
 	bool Int64Value::Equals(Object* valueToCompare) {
 		if (valueToCompare == nullptr || valueToCompare->GetRawDataType() != Int64Type) {
diff --git a/DotNetLibrary/src/UInt32Value.cpp b/DotNetLibrary/src/UInt32Value.cpp
index deff1df..5b8f317 100644
--- a/DotNetLibrary/src/UInt32Value.cpp
+++ b/DotNetLibrary/src/UInt32Value.cpp
@@ -60,7 +60,7 @@ namespace DotnetLibrary
 		return (Double) value;
 	}
 	Int32 UInt32Value::CompareTo(UInt32 valueToCompare) {
-		return value - valueToCompare;
+		return value < valueToCompare ? -1 : value > valueToCompare ? 1 : 0;
 	}
 	Int32 UInt32Value::CompareTo(Object* valueToCompare) {
 		if (valueToCompare == nullptr) {
@@ -69,7 +69,7 @@ namespace DotnetLibrary
 		if (valueToCompare->GetRawDataType() != UInt32Type) {
 			throw new ArgumentException();
 		}
-		return value - ((UInt32Value*) valueToCompare)->value;
+		return CompareTo(((UInt32Value*) valueToCompare)->value);
 	}
 	bool UInt32Value::Equals(Object* valueToCompare) {
 		if (valueToCompare == nullptr || valueToCompare->GetRawDataType() != UInt32Type) {
diff --git a/DotNetLibrary/src/UInt64Value.cpp b/DotNetLibrary/src/UInt64Value.cpp
index 63da17b..cd7899b 100644
--- a/DotNetLibrary/src/UInt64Value.cpp
+++ b/DotNetLibrary/src/UInt64Value.cpp
@@ -60,7 +60,7 @@ namespace DotnetLibrary
 		return (Double) value;
 	}
 	Int32 UInt64Value::CompareTo(UInt64 valueToCompare) {
-		return value - valueToCompare;
+		return value < valueToCompare ? -1 : value > valueToCompare ? 1 : 0;
 	}
 	Int32 UInt64Value::CompareTo(Object* valueToCompare) {
 		if (valueToCompare == nullptr) {
@@ -69,7 +69,7 @@ namespace DotnetLibrary
 		if (valueToCompare->GetRawDataType() != UInt64Type) {
 			throw new ArgumentException();
 		}
-		return value - ((UInt64Value*) valueToCompare)->value;
+		return CompareTo(((UInt64Value*) valueToCompare)->value);
 	}
 	bool UInt64Value::Equals(Object* valueToCompare) {
 		if (valueToCompare == nullptr || valueToCompare->GetRawDataType() != UInt64Type) {
-- 
2.43.0


From 0d45825d1893dad2ac117060f1411dc2039164fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:28 +0000
Subject: [PATCH 12/82] fix: raise when the total size of an array does not fit

---
 DotNetLibrary/src/Array.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/DotNetLibrary/src/Array.cpp b/DotNetLibrary/src/Array.cpp
index 383a916..d4626fe 100644
--- a/DotNetLibrary/src/Array.cpp
+++ b/DotNetLibrary/src/Array.cpp
@@ -51,6 +51,15 @@ namespace DotnetLibrary
 	void Array::InitializeData(DataType dataType, Int32 dimension1Size, Int32 dimension2Size, Int32 dimension3Size) {
 		if (dimension1Size < 0 || dimension2Size < -1 || dimension3Size < -1)
 			throw new OverflowException();
+		// the byte size of the whole array must fit, an empty dimension leaves no elements at all
+		if (dimension1Size != 0 && dimension2Size != 0 && dimension3Size != 0) {
+			Int64 limit = 0x7fffffff / (DataTypeSize[dataType] != 0 ? DataTypeSize[dataType] : 1);
+			limit /= dimension1Size;
+			limit /= dimension2Size != -1 ? dimension2Size : 1;
+			limit /= dimension3Size != -1 ? dimension3Size : 1;
+			if (limit == 0)
+				throw new OverflowException();
+		}
 		this->dataType = dataType;
 		this->dimension1Size = dimension1Size;
 		this->dimension2Size = dimension2Size;
-- 
2.43.0


From 579fdc8d89ab18ee894173cee609b635c0d27fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:29 +0000
Subject: [PATCH 13/82] fix: reject negative byte offsets

---
 DotNetLibrary/src/Buffer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/Buffer.cpp b/DotNetLibrary/src/Buffer.cpp
index 32b0ad9..770a6da 100644
--- a/DotNetLibrary/src/Buffer.cpp
+++ b/DotNetLibrary/src/Buffer.cpp
@@ -57,13 +57,13 @@ namespace DotnetLibrary
 	}
 	Byte Buffer::GetByte(Array* array, Int32 index) {
 		// array argument validation done via ByteLength
-		if (index >= ByteLength(array))
+		if (index >= ByteLength(array) || index < 0)
 			throw new ArgumentOutOfRangeException();
 		return (*(((Byte*) array->Address(0)) + index));
 	}
 	void Buffer::SetByte(Array* array, Int32 index, Byte value) {
 		// array argument validation done via ByteLength
-		if (index >= ByteLength(array))
+		if (index >= ByteLength(array) || index < 0)
 			throw new ArgumentOutOfRangeException();
 		*(((Byte*) array->Address(0)) + index) = value;
 	}
-- 
2.43.0


From bd6638641f4108eed6381c95e4de6467b4096dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:29 +0000
Subject: [PATCH 14/82] fix: allow empty block copies of empty arrays

---
 DotNetLibrary/src/Buffer.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/DotNetLibrary/src/Buffer.cpp b/DotNetLibrary/src/Buffer.cpp
index 770a6da..9a27069 100644
--- a/DotNetLibrary/src/Buffer.cpp
+++ b/DotNetLibrary/src/Buffer.cpp
@@ -36,10 +36,12 @@ namespace DotnetLibrary
 			throw new ArgumentOutOfRangeException();
 		if (count < 0)
 			throw new ArgumentOutOfRangeException();
-		UInt32 sourceLength = src->get_Length() * DataTypeSize[src->GetElementType()];
-		UInt32 destinationLength = dst->get_Length() * DataTypeSize[dst->GetElementType()];
-		if ((sourceLength < srcOffset + count) || (destinationLength < dstOffset + count))
+		Int32 sourceLength = src->get_Length() * DataTypeSize[src->GetElementType()];
+		Int32 destinationLength = dst->get_Length() * DataTypeSize[dst->GetElementType()];
+		if ((sourceLength - count < srcOffset) || (destinationLength - count < dstOffset))
 			throw new ArgumentException();
+		if (count == 0)
+			return;
 		memmove((Byte*) dst->Address(0) + dstOffset, (Byte*) src->Address(0) + srcOffset, count);
 	}
 	Int32 Buffer::ByteLength(Array* array) {
-- 
2.43.0


From aaaedbda4ded88dd1265f8580eb93aaeb4c3d5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:30 +0000
Subject: [PATCH 15/82] fix: dates and time spans are not primitive types

---
 DotNetLibrary/src/Object.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/Object.cpp b/DotNetLibrary/src/Object.cpp
index 704accb..11678e2 100644
--- a/DotNetLibrary/src/Object.cpp
+++ b/DotNetLibrary/src/Object.cpp
@@ -33,7 +33,7 @@ namespace DotnetLibrary
 		return (this == object);
 	}
 	Boolean Object::IsPrimitiveType(DataType type) {
-		return (type != ObjectType && type != StringType && type != NullType);
+		return (type >= BooleanType && type <= DoubleType);
 	}
 	String* Object::ToString() {
 		Char chars[128];
-- 
2.43.0


From bdb0a01fc63060719b818bbcc9de6720af9bfb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:31 +0000
Subject: [PATCH 16/82] fix: read characters from bytes without sign extension

---
 DotNetLibrary/src/BitConverter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DotNetLibrary/src/BitConverter.cpp b/DotNetLibrary/src/BitConverter.cpp
index cda6db8..63e87bd 100644
--- a/DotNetLibrary/src/BitConverter.cpp
+++ b/DotNetLibrary/src/BitConverter.cpp
@@ -88,9 +88,9 @@ namespace DotnetLibrary
 		return false;
 	}
 	Char BitConverter::ToChar(Array* value, Int32 startIndex) {
-		Int16 ret;
-		// treat Char as Int16 because on some systems Char is 4 bytes but .Net isn't
-		PutBytes((Byte*) &ret, value, startIndex, sizeof(Int16));
+		UInt16 ret;
+		// treat Char as UInt16 because on some systems Char is 4 bytes but .Net isn't
+		PutBytes((Byte*) &ret, value, startIndex, sizeof(UInt16));
 		return (Char) ret;
 	}
 	Double BitConverter::ToDouble(Array* value, Int32 startIndex) {
-- 
2.43.0


From 2bbe1500e6303fa2584dc1100369b224a9dc992f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:58 +0000
Subject: [PATCH 17/82] fix: reject garbage after trailing white space in
 numbers

---
 DotNetLibrary/src/UInt64Value.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/UInt64Value.cpp b/DotNetLibrary/src/UInt64Value.cpp
index cd7899b..3d26b13 100644
--- a/DotNetLibrary/src/UInt64Value.cpp
+++ b/DotNetLibrary/src/UInt64Value.cpp
@@ -141,7 +141,11 @@ namespace DotnetLibrary
 			--sourceLength;
 			gotNumber = true;
 		}
-		if (sourceLength > 0 && !CharValue::IsWhiteSpace(*source))
+		while (sourceLength > 0 && CharValue::IsWhiteSpace(*source)) {
+			++source;
+			--sourceLength;
+		}
+		if (sourceLength > 0)
 			gotNumber = false;
 		return (gotNumber);
 	}
-- 
2.43.0


From 5c1de4f051d7748aa7338a8a324c5ede6348164f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:59 +0000
Subject: [PATCH 18/82] fix: TryParse of integers returns false for null and
 zeroes its result

---
 DotNetLibrary/src/ByteValue.cpp   | 6 +++++-
 DotNetLibrary/src/Int16Value.cpp  | 6 +++++-
 DotNetLibrary/src/Int32Value.cpp  | 6 +++++-
 DotNetLibrary/src/Int64Value.cpp  | 6 +++++-
 DotNetLibrary/src/SByteValue.cpp  | 6 +++++-
 DotNetLibrary/src/UInt16Value.cpp | 6 +++++-
 DotNetLibrary/src/UInt32Value.cpp | 6 +++++-
 DotNetLibrary/src/UInt64Value.cpp | 6 +++++-
 8 files changed, 40 insertions(+), 8 deletions(-)

diff --git a/DotNetLibrary/src/ByteValue.cpp b/DotNetLibrary/src/ByteValue.cpp
index f4a13ba..7dae0fe 100644
--- a/DotNetLibrary/src/ByteValue.cpp
+++ b/DotNetLibrary/src/ByteValue.cpp
@@ -96,13 +96,17 @@ namespace DotnetLibrary
 	}
 	bool ByteValue::TryParse(String* stringToParse, Byte& result) {
 		Boolean goodNumber = true;
+		result = 0;
+		if (stringToParse == nullptr)
+			return (false);
 		UInt64 value = 0;
 		Int32 sign = 0;
 		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
 			goodNumber = false;
 		if (sign < 0 || value > MaxValue)
 			goodNumber = false;
-		result = (Byte) value;
+		if (goodNumber)
+			result = (Byte) value;
 		return (goodNumber);
 	}
 }
diff --git a/DotNetLibrary/src/Int16Value.cpp b/DotNetLibrary/src/Int16Value.cpp
index fdea7b4..e555a35 100644
--- a/DotNetLibrary/src/Int16Value.cpp
+++ b/DotNetLibrary/src/Int16Value.cpp
@@ -99,6 +99,9 @@ namespace DotnetLibrary
 	}
 	bool Int16Value::TryParse(String* stringToParse, Int16& result) {
 		Boolean goodNumber = true;
+		result = 0;
+		if (stringToParse == nullptr)
+			return (false);
 		UInt64 value = 0;
 		Int32 sign = 0;
 		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
@@ -107,7 +110,8 @@ namespace DotnetLibrary
 			goodNumber = false;
 		if (sign < 0 && (Int64) value < MinValue)
 			goodNumber = false;
-		result = (Int16) value * sign;
+		if (goodNumber)
+			result = (Int16) value * sign;
 		return (goodNumber);
 	}
 }
diff --git a/DotNetLibrary/src/Int32Value.cpp b/DotNetLibrary/src/Int32Value.cpp
index 800bb8d..3abaceb 100644
--- a/DotNetLibrary/src/Int32Value.cpp
+++ b/DotNetLibrary/src/Int32Value.cpp
@@ -100,6 +100,9 @@ namespace DotnetLibrary
 	}
 	bool Int32Value::TryParse(String* stringToParse, Int32& result) {
 		Boolean goodNumber = true;
+		result = 0;
+		if (stringToParse == nullptr)
+			return (false);
 		UInt64 value = 0;
 		Int32 sign = 0;
 		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
@@ -108,7 +111,8 @@ namespace DotnetLibrary
 			goodNumber = false;
 		if (sign < 0 && (Int64) value < MinValue)
 			goodNumber = false;
-		result = (Int32) value * sign;
+		if (goodNumber)
+			result = (Int32) value * sign;
 		return (goodNumber);
 	}
 }
diff --git a/DotNetLibrary/src/Int64Value.cpp b/DotNetLibrary/src/Int64Value.cpp
index ac31d8f..39978cb 100644
--- a/DotNetLibrary/src/Int64Value.cpp
+++ b/DotNetLibrary/src/Int64Value.cpp
@@ -96,11 +96,15 @@ namespace DotnetLibrary
 	}
 	bool Int64Value::TryParse(String* stringToParse, Int64& result) {
 		Boolean goodNumber = true;
+		result = 0;
+		if (stringToParse == nullptr)
+			return (false);
 		UInt64 value = 0;
 		Int32 sign = 0;
 		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
 			goodNumber = false;
-		result = (Int64) value * sign;
+		if (goodNumber)
+			result = (Int64) value * sign;
 		return (goodNumber);
 	}
 }
diff --git a/DotNetLibrary/src/SByteValue.cpp b/DotNetLibrary/src/SByteValue.cpp
index c983f7f..b17e84f 100644
--- a/DotNetLibrary/src/SByteValue.cpp
+++ b/DotNetLibrary/src/SByteValue.cpp
@@ -100,6 +100,9 @@ namespace DotnetLibrary
 	}
 	bool SByteValue::TryParse(String* stringToParse, SByte& result) {
 		Boolean goodNumber = true;
+		result = 0;
+		if (stringToParse == nullptr)
+			return (false);
 		UInt64 value = 0;
 		Int32 sign = 0;
 		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
@@ -108,7 +111,8 @@ namespace DotnetLibrary
 			goodNumber = false;
 		if (sign < 0 && (Int64) value < MinValue)
 			goodNumber = false;
-		result = (SByte) value * sign;
+		if (goodNumber)
+			result = (SByte) value * sign;
 		return (goodNumber);
 	}
 }
diff --git a/DotNetLibrary/src/UInt16Value.cpp b/DotNetLibrary/src/UInt16Value.cpp
index 31819dc..7b1e7b1 100644
--- a/DotNetLibrary/src/UInt16Value.cpp
+++ b/DotNetLibrary/src/UInt16Value.cpp
@@ -98,13 +98,17 @@ namespace DotnetLibrary
 	}
 	bool UInt16Value::TryParse(String* stringToParse, UInt16& result) {
 		Boolean goodNumber = true;
+		result = 0;
+		if (stringToParse == nullptr)
+			return (false);
 		UInt64 value = 0;
 		Int32 sign = 0;
 		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
 			goodNumber = false;
 		if (sign < 0 || value > MaxValue)
 			goodNumber = false;
-		result = (UInt16) value;
+		if (goodNumber)
+			result = (UInt16) value;
 		return (goodNumber);
 	}
 }
diff --git a/DotNetLibrary/src/UInt32Value.cpp b/DotNetLibrary/src/UInt32Value.cpp
index 5b8f317..47b7996 100644
--- a/DotNetLibrary/src/UInt32Value.cpp
+++ b/DotNetLibrary/src/UInt32Value.cpp
@@ -98,13 +98,17 @@ namespace DotnetLibrary
 	}
 	bool UInt32Value::TryParse(String* stringToParse, UInt32& result) {
 		Boolean goodNumber = true;
+		result = 0;
+		if (stringToParse == nullptr)
+			return (false);
 		UInt64 value = 0;
 		Int32 sign = 0;
 		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
 			goodNumber = false;
 		if (sign < 0 || value > MaxValue)
 			goodNumber = false;
-		result = (UInt32) value;
+		if (goodNumber)
+			result = (UInt32) value;
 		return (goodNumber);
 	}
 }
diff --git a/DotNetLibrary/src/UInt64Value.cpp b/DotNetLibrary/src/UInt64Value.cpp
index 3d26b13..24938f9 100644
--- a/DotNetLibrary/src/UInt64Value.cpp
+++ b/DotNetLibrary/src/UInt64Value.cpp
@@ -98,13 +98,17 @@ namespace DotnetLibrary
 	}
 	bool UInt64Value::TryParse(String* stringToParse, UInt64& result) {
 		Boolean goodNumber = true;
+		result = 0;
+		if (stringToParse == nullptr)
+			return (false);
 		UInt64 value = 0;
 		Int32 sign = 0;
 		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
 			goodNumber = false;
 		if (sign < 0 || value > MaxValue)
 			goodNumber = false;
-		result = (UInt64) value;
+		if (goodNumber)
+			result = (UInt64) value;
 		return (goodNumber);
 	}
 	Boolean UInt64Value::TryParseInternal(String* source, UInt64& result, Int32& sign) {
-- 
2.43.0


From e84b10511100739fc6c7d9ae1f3af6107001a542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:24 +0000
Subject: [PATCH 19/82] fix: check the range of negative numbers when parsing

---
 DotNetLibrary/src/ByteValue.cpp   | 4 ++--
 DotNetLibrary/src/Int16Value.cpp  | 8 ++++----
 DotNetLibrary/src/Int32Value.cpp  | 8 ++++----
 DotNetLibrary/src/SByteValue.cpp  | 8 ++++----
 DotNetLibrary/src/UInt16Value.cpp | 6 +++---
 DotNetLibrary/src/UInt32Value.cpp | 6 +++---
 DotNetLibrary/src/UInt64Value.cpp | 4 ++--
 7 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/DotNetLibrary/src/ByteValue.cpp b/DotNetLibrary/src/ByteValue.cpp
index 7dae0fe..43de927 100644
--- a/DotNetLibrary/src/ByteValue.cpp
+++ b/DotNetLibrary/src/ByteValue.cpp
@@ -90,7 +90,7 @@ namespace DotnetLibrary
 		Int32 sign = 0;
 		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
 			throw new FormatException();
-		if (sign < 0 || value > MaxValue)
+		if ((sign < 0 && value != 0) || value > MaxValue)
 			throw new OverflowException();
 		return (value);
 	}
@@ -103,7 +103,7 @@ namespace DotnetLibrary
 		Int32 sign = 0;
 		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
 			goodNumber = false;
-		if (sign < 0 || value > MaxValue)
+		if ((sign < 0 && value != 0) || value > MaxValue)
 			goodNumber = false;
 		if (goodNumber)
 			result = (Byte) value;
diff --git a/DotNetLibrary/src/Int16Value.cpp b/DotNetLibrary/src/Int16Value.cpp
index e555a35..e8ca588 100644
--- a/DotNetLibrary/src/Int16Value.cpp
+++ b/DotNetLibrary/src/Int16Value.cpp
@@ -93,9 +93,9 @@ namespace DotnetLibrary
 			throw new FormatException();
 		if (sign > 0 && value > MaxValue)
 			throw new OverflowException();
-		if (sign < 0 && (Int64) value < MinValue)
+		if (sign < 0 && value > (UInt64) MaxValue + 1)
 			throw new OverflowException();
-		return ((Int16) value * sign);
+		return ((Int16) ((Int64) value * sign));
 	}
 	bool Int16Value::TryParse(String* stringToParse, Int16& result) {
 		Boolean goodNumber = true;
@@ -108,10 +108,10 @@ namespace DotnetLibrary
 			goodNumber = false;
 		if (sign > 0 && value > MaxValue)
 			goodNumber = false;
-		if (sign < 0 && (Int64) value < MinValue)
+		if (sign < 0 && value > (UInt64) MaxValue + 1)
 			goodNumber = false;
 		if (goodNumber)
-			result = (Int16) value * sign;
+			result = (Int16) ((Int64) value * sign);
 		return (goodNumber);
 	}
 }
diff --git a/DotNetLibrary/src/Int32Value.cpp b/DotNetLibrary/src/Int32Value.cpp
index 3abaceb..faaf6b0 100644
--- a/DotNetLibrary/src/Int32Value.cpp
+++ b/DotNetLibrary/src/Int32Value.cpp
@@ -94,9 +94,9 @@ namespace DotnetLibrary
 			throw new FormatException();
 		if (sign > 0 && value > MaxValue)
 			throw new OverflowException();
-		if (sign < 0 && (Int64) value < MinValue)
+		if (sign < 0 && value > (UInt64) MaxValue + 1)
 			throw new OverflowException();
-		return ((Int32) value * sign);
+		return ((Int32) ((Int64) value * sign));
 	}
 	bool Int32Value::TryParse(String* stringToParse, Int32& result) {
 		Boolean goodNumber = true;
@@ -109,10 +109,10 @@ namespace DotnetLibrary
 			goodNumber = false;
 		if (sign > 0 && value > MaxValue)
 			goodNumber = false;
-		if (sign < 0 && (Int64) value < MinValue)
+		if (sign < 0 && value > (UInt64) MaxValue + 1)
 			goodNumber = false;
 		if (goodNumber)
-			result = (Int32) value * sign;
+			result = (Int32) ((Int64) value * sign);
 		return (goodNumber);
 	}
 }
diff --git a/DotNetLibrary/src/SByteValue.cpp b/DotNetLibrary/src/SByteValue.cpp
index b17e84f..b391fe0 100644
--- a/DotNetLibrary/src/SByteValue.cpp
+++ b/DotNetLibrary/src/SByteValue.cpp
@@ -94,9 +94,9 @@ namespace DotnetLibrary
 			throw new FormatException();
 		if (sign > 0 && value > MaxValue)
 			throw new OverflowException();
-		if (sign < 0 && (Int64) value < MinValue)
+		if (sign < 0 && value > (UInt64) MaxValue + 1)
 			throw new OverflowException();
-		return ((SByte) value * sign);
+		return ((SByte) ((Int64) value * sign));
 	}
 	bool SByteValue::TryParse(String* stringToParse, SByte& result) {
 		Boolean goodNumber = true;
@@ -109,10 +109,10 @@ namespace DotnetLibrary
 			goodNumber = false;
 		if (sign > 0 && value > MaxValue)
 			goodNumber = false;
-		if (sign < 0 && (Int64) value < MinValue)
+		if (sign < 0 && value > (UInt64) MaxValue + 1)
 			goodNumber = false;
 		if (goodNumber)
-			result = (SByte) value * sign;
+			result = (SByte) ((Int64) value * sign);
 		return (goodNumber);
 	}
 }
diff --git a/DotNetLibrary/src/UInt16Value.cpp b/DotNetLibrary/src/UInt16Value.cpp
index 7b1e7b1..c2e3759 100644
--- a/DotNetLibrary/src/UInt16Value.cpp
+++ b/DotNetLibrary/src/UInt16Value.cpp
@@ -92,9 +92,9 @@ namespace DotnetLibrary
 		Int32 sign = 0;
 		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
 			throw new FormatException();
-		if (value > MaxValue)
+		if ((sign < 0 && value != 0) || value > MaxValue)
 			throw new OverflowException();
-		return ((UInt16) value * sign);
+		return ((UInt16) value);
 	}
 	bool UInt16Value::TryParse(String* stringToParse, UInt16& result) {
 		Boolean goodNumber = true;
@@ -105,7 +105,7 @@ namespace DotnetLibrary
 		Int32 sign = 0;
 		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
 			goodNumber = false;
-		if (sign < 0 || value > MaxValue)
+		if ((sign < 0 && value != 0) || value > MaxValue)
 			goodNumber = false;
 		if (goodNumber)
 			result = (UInt16) value;
diff --git a/DotNetLibrary/src/UInt32Value.cpp b/DotNetLibrary/src/UInt32Value.cpp
index 47b7996..9e2a5d9 100644
--- a/DotNetLibrary/src/UInt32Value.cpp
+++ b/DotNetLibrary/src/UInt32Value.cpp
@@ -92,9 +92,9 @@ namespace DotnetLibrary
 		Int32 sign = 0;
 		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
 			throw new FormatException();
-		if (value > MaxValue)
+		if ((sign < 0 && value != 0) || value > MaxValue)
 			throw new OverflowException();
-		return ((UInt32) value * sign);
+		return ((UInt32) value);
 	}
 	bool UInt32Value::TryParse(String* stringToParse, UInt32& result) {
 		Boolean goodNumber = true;
@@ -105,7 +105,7 @@ namespace DotnetLibrary
 		Int32 sign = 0;
 		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
 			goodNumber = false;
-		if (sign < 0 || value > MaxValue)
+		if ((sign < 0 && value != 0) || value > MaxValue)
 			goodNumber = false;
 		if (goodNumber)
 			result = (UInt32) value;
diff --git a/DotNetLibrary/src/UInt64Value.cpp b/DotNetLibrary/src/UInt64Value.cpp
index 24938f9..8c86fdd 100644
--- a/DotNetLibrary/src/UInt64Value.cpp
+++ b/DotNetLibrary/src/UInt64Value.cpp
@@ -92,7 +92,7 @@ namespace DotnetLibrary
 		Int32 sign = 0;
 		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
 			throw new FormatException();
-		if (value > MaxValue)
+		if ((sign < 0 && value != 0) || value > MaxValue)
 			throw new OverflowException();
 		return ((UInt64) value);
 	}
@@ -105,7 +105,7 @@ namespace DotnetLibrary
 		Int32 sign = 0;
 		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
 			goodNumber = false;
-		if (sign < 0 || value > MaxValue)
+		if ((sign < 0 && value != 0) || value > MaxValue)
 			goodNumber = false;
 		if (goodNumber)
 			result = (UInt64) value;
-- 
2.43.0


From 20801879f5a5a761ce1b443ef95738a7c9b1b58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:24 +0000
Subject: [PATCH 20/82] fix: detect overflow when parsing 64 bit numbers

---
 DotNetLibrary/src/ByteValue.cpp   |  4 ++--
 DotNetLibrary/src/Int16Value.cpp  |  4 ++--
 DotNetLibrary/src/Int32Value.cpp  |  4 ++--
 DotNetLibrary/src/Int64Value.cpp  |  8 ++++++--
 DotNetLibrary/src/SByteValue.cpp  |  4 ++--
 DotNetLibrary/src/UInt16Value.cpp |  4 ++--
 DotNetLibrary/src/UInt32Value.cpp |  4 ++--
 DotNetLibrary/src/UInt64Value.cpp | 12 +++++++++---
 8 files changed, 27 insertions(+), 17 deletions(-)

diff --git a/DotNetLibrary/src/ByteValue.cpp b/DotNetLibrary/src/ByteValue.cpp
index 43de927..3007846 100644
--- a/DotNetLibrary/src/ByteValue.cpp
+++ b/DotNetLibrary/src/ByteValue.cpp
@@ -90,7 +90,7 @@ namespace DotnetLibrary
 		Int32 sign = 0;
 		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
 			throw new FormatException();
-		if ((sign < 0 && value != 0) || value > MaxValue)
+		if (sign == 0 || (sign < 0 && value != 0) || value > MaxValue)
 			throw new OverflowException();
 		return (value);
 	}
@@ -103,7 +103,7 @@ namespace DotnetLibrary
 		Int32 sign = 0;
 		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
 			goodNumber = false;
-		if ((sign < 0 && value != 0) || value > MaxValue)
+		if (sign == 0 || (sign < 0 && value != 0) || value > MaxValue)
 			goodNumber = false;
 		if (goodNumber)
 			result = (Byte) value;
diff --git a/DotNetLibrary/src/Int16Value.cpp b/DotNetLibrary/src/Int16Value.cpp
index e8ca588..d52c2ab 100644
--- a/DotNetLibrary/src/Int16Value.cpp
+++ b/DotNetLibrary/src/Int16Value.cpp
@@ -91,7 +91,7 @@ namespace DotnetLibrary
 		Int32 sign = 0;
 		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
 			throw new FormatException();
-		if (sign > 0 && value > MaxValue)
+		if (sign == 0 || (sign > 0 && value > MaxValue))
 			throw new OverflowException();
 		if (sign < 0 && value > (UInt64) MaxValue + 1)
 			throw new OverflowException();
@@ -106,7 +106,7 @@ namespace DotnetLibrary
 		Int32 sign = 0;
 		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
 			goodNumber = false;
-		if (sign > 0 && value > MaxValue)
+		if (sign == 0 || (sign > 0 && value > MaxValue))
 			goodNumber = false;
 		if (sign < 0 && value > (UInt64) MaxValue + 1)
 			goodNumber = false;
diff --git a/DotNetLibrary/src/Int32Value.cpp b/DotNetLibrary/src/Int32Value.cpp
index faaf6b0..789787a 100644
--- a/DotNetLibrary/src/Int32Value.cpp
+++ b/DotNetLibrary/src/Int32Value.cpp
@@ -92,7 +92,7 @@ namespace DotnetLibrary
 		Int32 sign = 0;
 		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
 			throw new FormatException();
-		if (sign > 0 && value > MaxValue)
+		if (sign == 0 || (sign > 0 && value > MaxValue))
 			throw new OverflowException();
 		if (sign < 0 && value > (UInt64) MaxValue + 1)
 			throw new OverflowException();
@@ -107,7 +107,7 @@ namespace DotnetLibrary
 		Int32 sign = 0;
 		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
 			goodNumber = false;
-		if (sign > 0 && value > MaxValue)
+		if (sign == 0 || (sign > 0 && value > MaxValue))
 			goodNumber = false;
 		if (sign < 0 && value > (UInt64) MaxValue + 1)
 			goodNumber = false;
diff --git a/DotNetLibrary/src/Int64Value.cpp b/DotNetLibrary/src/Int64Value.cpp
index 39978cb..cf1dad0 100644
--- a/DotNetLibrary/src/Int64Value.cpp
+++ b/DotNetLibrary/src/Int64Value.cpp
@@ -92,7 +92,9 @@ namespace DotnetLibrary
 		Int32 sign = 0;
 		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
 			throw new FormatException();
-		return ((Int64) value * sign);
+		if (sign == 0 || value > (UInt64) MaxValue + (sign < 0 ? 1 : 0))
+			throw new OverflowException();
+		return (sign < 0 ? (Int64) (0 - value) : (Int64) value);
 	}
 	bool Int64Value::TryParse(String* stringToParse, Int64& result) {
 		Boolean goodNumber = true;
@@ -103,8 +105,10 @@ namespace DotnetLibrary
 		Int32 sign = 0;
 		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
 			goodNumber = false;
+		if (sign == 0 || value > (UInt64) MaxValue + (sign < 0 ? 1 : 0))
+			goodNumber = false;
 		if (goodNumber)
-			result = (Int64) value * sign;
+			result = sign < 0 ? (Int64) (0 - value) : (Int64) value;
 		return (goodNumber);
 	}
 }
diff --git a/DotNetLibrary/src/SByteValue.cpp b/DotNetLibrary/src/SByteValue.cpp
index b391fe0..9d56aa1 100644
--- a/DotNetLibrary/src/SByteValue.cpp
+++ b/DotNetLibrary/src/SByteValue.cpp
@@ -92,7 +92,7 @@ namespace DotnetLibrary
 		Int32 sign = 0;
 		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
 			throw new FormatException();
-		if (sign > 0 && value > MaxValue)
+		if (sign == 0 || (sign > 0 && value > MaxValue))
 			throw new OverflowException();
 		if (sign < 0 && value > (UInt64) MaxValue + 1)
 			throw new OverflowException();
@@ -107,7 +107,7 @@ namespace DotnetLibrary
 		Int32 sign = 0;
 		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
 			goodNumber = false;
-		if (sign > 0 && value > MaxValue)
+		if (sign == 0 || (sign > 0 && value > MaxValue))
 			goodNumber = false;
 		if (sign < 0 && value > (UInt64) MaxValue + 1)
 			goodNumber = false;
diff --git a/DotNetLibrary/src/UInt16Value.cpp b/DotNetLibrary/src/UInt16Value.cpp
index c2e3759..299d259 100644
--- a/DotNetLibrary/src/UInt16Value.cpp
+++ b/DotNetLibrary/src/UInt16Value.cpp
@@ -92,7 +92,7 @@ namespace DotnetLibrary
 		Int32 sign = 0;
 		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
 			throw new FormatException();
-		if ((sign < 0 && value != 0) || value > MaxValue)
+		if (sign == 0 || (sign < 0 && value != 0) || value > MaxValue)
 			throw new OverflowException();
 		return ((UInt16) value);
 	}
@@ -105,7 +105,7 @@ namespace DotnetLibrary
 		Int32 sign = 0;
 		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
 			goodNumber = false;
-		if ((sign < 0 && value != 0) || value > MaxValue)
+		if (sign == 0 || (sign < 0 && value != 0) || value > MaxValue)
 			goodNumber = false;
 		if (goodNumber)
 			result = (UInt16) value;
diff --git a/DotNetLibrary/src/UInt32Value.cpp b/DotNetLibrary/src/UInt32Value.cpp
index 9e2a5d9..2c56d47 100644
--- a/DotNetLibrary/src/UInt32Value.cpp
+++ b/DotNetLibrary/src/UInt32Value.cpp
@@ -92,7 +92,7 @@ namespace DotnetLibrary
 		Int32 sign = 0;
 		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
 			throw new FormatException();
-		if ((sign < 0 && value != 0) || value > MaxValue)
+		if (sign == 0 || (sign < 0 && value != 0) || value > MaxValue)
 			throw new OverflowException();
 		return ((UInt32) value);
 	}
@@ -105,7 +105,7 @@ namespace DotnetLibrary
 		Int32 sign = 0;
 		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
 			goodNumber = false;
-		if ((sign < 0 && value != 0) || value > MaxValue)
+		if (sign == 0 || (sign < 0 && value != 0) || value > MaxValue)
 			goodNumber = false;
 		if (goodNumber)
 			result = (UInt32) value;
diff --git a/DotNetLibrary/src/UInt64Value.cpp b/DotNetLibrary/src/UInt64Value.cpp
index 8c86fdd..1484730 100644
--- a/DotNetLibrary/src/UInt64Value.cpp
+++ b/DotNetLibrary/src/UInt64Value.cpp
@@ -92,7 +92,7 @@ namespace DotnetLibrary
 		Int32 sign = 0;
 		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
 			throw new FormatException();
-		if ((sign < 0 && value != 0) || value > MaxValue)
+		if (sign == 0 || (sign < 0 && value != 0) || value > MaxValue)
 			throw new OverflowException();
 		return ((UInt64) value);
 	}
@@ -105,7 +105,7 @@ namespace DotnetLibrary
 		Int32 sign = 0;
 		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
 			goodNumber = false;
-		if ((sign < 0 && value != 0) || value > MaxValue)
+		if (sign == 0 || (sign < 0 && value != 0) || value > MaxValue)
 			goodNumber = false;
 		if (goodNumber)
 			result = (UInt64) value;
@@ -120,6 +120,7 @@ namespace DotnetLibrary
 		result = 0;
 		sign = 1;
 		Boolean gotNumber = false;
+		Boolean overflow = false;
 		while (*source != 0 && sourceLength > 0) {
 			if (!CharValue::IsWhiteSpace(*source))
 				break;
@@ -140,7 +141,9 @@ namespace DotnetLibrary
 		while (*source != 0 && sourceLength > 0) {
 			if (!CharValue::IsDigit(*source))
 				break;
-			result = 10 * result + *source - '0';
+			if (result > (MaxValue - (*source - '0')) / 10)
+				overflow = true;
+			result = 10 * result + (*source - '0');
 			++source;
 			--sourceLength;
 			gotNumber = true;
@@ -151,6 +154,9 @@ namespace DotnetLibrary
 		}
 		if (sourceLength > 0)
 			gotNumber = false;
+		// a sign of zero tells the caller that the number does not fit in 64 bits
+		if (overflow)
+			sign = 0;
 		return (gotNumber);
 	}
 }
-- 
2.43.0


From 9d76ae5de051d4e2525ac244f44ec1190e9113ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:08 +0000
Subject: [PATCH 21/82] fix: keep the terminator inside the destination when
 formatting

---
 DotNetLibrary/src/StringBuilder.cpp | 2 +-
 DotNetLibrary/src/StringDotNet.cpp  | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index e46c273..d0538b1 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -180,7 +180,7 @@ namespace DotnetLibrary
 		return (new String(&chunkChars[startIndex], 0, length));
 	}
 	Int32 StringBuilder::FormatString(Char* where, const Int32 whereSize) {
-		if (whereSize < currentLength)
+		if (whereSize <= currentLength)
 			throw new IndexOutOfRangeException();
 		CopyChars(where, whereSize, chunkChars, this->currentLength);
 		return currentLength;
diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index 172936c..f728fbd 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -650,13 +650,15 @@ namespace DotnetLibrary
 		return (false);
 	}
 	Int32 String::FormatString(Char* where, const Int32 whereSize) {
-		if (whereSize < this->length)
+		if (whereSize <= this->length)
 			throw new IndexOutOfRangeException();
 		CopyChars(where, whereSize, this->characterData, length);
 		return this->length;
 	}
 	void CopyChars(Char* where, Int32 whereSize, Char* source, Int32 sourceSize) {
-		if (sourceSize > whereSize)
+		if (whereSize <= 0)
+			return;
+		if (sourceSize >= whereSize)
 			sourceSize = whereSize - 1;
 		memcpy(where, source, sourceSize * sizeof(Char));
 		where[sourceSize] = 0;
-- 
2.43.0


From 77415b29a74a67f91040cf9240876aee86edc817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:09 +0000
Subject: [PATCH 22/82] fix: show the noon hour as PM

---
 DotNetLibrary/src/DateTimeValue.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/DotNetLibrary/src/DateTimeValue.cpp b/DotNetLibrary/src/DateTimeValue.cpp
index 58f5034..2748a12 100644
--- a/DotNetLibrary/src/DateTimeValue.cpp
+++ b/DotNetLibrary/src/DateTimeValue.cpp
@@ -272,15 +272,16 @@ namespace DotnetLibrary
 		Int32 minute = this->get_Minute();
 		Int32 second = this->get_Second();
 		Boolean isPm = false;
-		if (hour > 12) {
-			hour -= 12;
+		if (hour >= 12) {
 			isPm = true;
+			if (hour > 12)
+				hour -= 12;
 		}
 		Char dateTime[128];
 #ifdef __MINGW32__
 		Int32 length = swprintf(dateTime, L"%d/%d/%d %d:%02d:%02d ", month, day, year, hour, minute, second);
 #else
-		Int32 length = swprintf(dateTime, whereSize, L"%d/%d/%d %d:%02d:%02d ", month, day, year, hour, minute, second);
+		Int32 length = swprintf(dateTime, 128, L"%d/%d/%d %d:%02d:%02d ", month, day, year, hour, minute, second);
 #endif
 		stringBuilder.Append(dateTime, length);
 		if (isPm)
-- 
2.43.0


From 8440274e6108a71330d93f41aa6c0e5ba357fa3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:19 +0000
Subject: [PATCH 23/82] fix: accept empty and null strings in the StringBuilder
 constructor

---
 DotNetLibrary/src/StringBuilder.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index d0538b1..bd38fd3 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -46,7 +46,7 @@ namespace DotnetLibrary
 		this->maxCapacity = maxCapacity;
 		set_Capacity(capacity);
 	}
-	StringBuilder::StringBuilder(String* value, Int32 capacity) : StringBuilder(value, 0, value->get_Length(), capacity) {
+	StringBuilder::StringBuilder(String* value, Int32 capacity) : StringBuilder(value, 0, value == nullptr ? 0 : value->get_Length(), capacity) {
 	}
 	StringBuilder::StringBuilder(String* value, Int32 startIndex, Int32 length, Int32 capacity) {
 		Initialize();
@@ -69,9 +69,9 @@ namespace DotnetLibrary
 			capacity = DefaultCapacity;
 		}
 		set_Capacity(Math::Max(capacity, length));
-		Char* sourcePtr = value->Address(startIndex);
-		memcpy(chunkChars, sourcePtr, length * sizeof(Char));
+		memcpy(chunkChars, value->get_Buffer() + startIndex, length * sizeof(Char));
 		currentLength = length;
+		chunkChars[currentLength] = 0;
 	}
 	StringBuilder::~StringBuilder() {
 		if (chunkChars != nullptr && chunkChars != internalMemory)
-- 
2.43.0


From b8fca3cace6475724e1dbeb2066e7cbd69ce089e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:20 +0000
Subject: [PATCH 24/82] fix: clear the characters added when a StringBuilder is
 lengthened

---
 DotNetLibrary/src/StringBuilder.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index bd38fd3..ff21c10 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -102,6 +102,9 @@ namespace DotnetLibrary
 		}
 		EnsureCapacity(newLength);
 		int delta = newLength - currentLength;
+		if (delta > 0) {
+			memset(chunkChars + currentLength, 0, (delta + 1) * sizeof(Char));
+		}
 		if (delta == 0) {
 			return;
 		}
-- 
2.43.0


From d3c34c59b43632491ede8bb3e24c2c1e0295e48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:21 +0000
Subject: [PATCH 25/82] fix: keep the capacity of a StringBuilder between its
 length and its maximum

---
 DotNetLibrary/src/StringBuilder.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index ff21c10..63e7025 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -123,7 +123,7 @@ namespace DotnetLibrary
 		if (capacity > maxCapacity) {
 			throw new ArgumentOutOfRangeException();
 		}
-		if (chunkChars != internalMemory && capacity < currentCapacity) {
+		if (capacity < currentLength || (chunkChars != internalMemory && capacity < currentCapacity)) {
 			throw new ArgumentOutOfRangeException();
 		}
 		if (currentCapacity >= capacity) {
@@ -133,9 +133,8 @@ namespace DotnetLibrary
 		Char* newArray = internalMemory;
 		if (capacity > DefaultCapacity) {
 			Int32 partial = capacity % DefaultCapacity;
-			capacity = (capacity / DefaultCapacity) * DefaultCapacity;
 			if (partial > 0)
-				capacity += DefaultCapacity;
+				capacity += Math::Min(DefaultCapacity - partial, maxCapacity - capacity);
 			newArray = new Char[capacity + 1];
 			memcpy(newArray, chunkChars, currentLength * sizeof(Char));
 			if (chunkChars != internalMemory)
-- 
2.43.0


From 9fe14b97ca000ed9ef3a454ecc6bc8a29da0876c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:22 +0000
Subject: [PATCH 26/82] fix: reserve room after the existing text when
 appending repeated characters

---
 DotNetLibrary/src/StringBuilder.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index 63e7025..f534bfa 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -264,7 +264,7 @@ namespace DotnetLibrary
 		if (repeatCount < 0) {
 			throw new ArgumentOutOfRangeException();
 		}
-		EnsureCapacity(repeatCount);
+		EnsureRoomFor(repeatCount);
 		for (int i = 0; i < repeatCount; ++i) {
 			chunkChars[currentLength++] = value;
 		}
@@ -315,6 +315,9 @@ namespace DotnetLibrary
 		return (this);
 	}
 	void StringBuilder::EnsureRoomFor(Int32 amount) {
+		if (amount < 0 || amount > maxCapacity - currentLength) {
+			throw new ArgumentOutOfRangeException();
+		}
 		EnsureCapacity(currentLength + amount);
 	}
 	Int32 StringBuilder::EnsureCapacity(Int32 capacity) {
-- 
2.43.0


From 40ecc936ba75d03356d8cca3442efb6c9f38c796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:47 +0000
Subject: [PATCH 27/82] fix: append null as nothing and lines as a whole

---
 DotNetLibrary/src/StringBuilder.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index f534bfa..23e3ee9 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -255,6 +255,9 @@ namespace DotnetLibrary
 		return (Append(data));
 	}
 	StringBuilder* StringBuilder::Append(Object* value) {
+		if (value == nullptr) {
+			return (this);
+		}
 		return (Append(value->ToString()));
 	}
 	StringBuilder* StringBuilder::Append(Char value) {
@@ -272,11 +275,14 @@ namespace DotnetLibrary
 		return (this);
 	}
 	StringBuilder* StringBuilder::Append(String* value, Int32 startIndex, Int32 charCount) {
-		if (charCount < 0)
-			charCount = value->get_Length();
+		if (value == nullptr) {
+			return (this);
+		}
 		if (startIndex < 0) {
 			throw new ArgumentOutOfRangeException();
 		}
+		if (charCount < 0)
+			charCount = value->get_Length() - startIndex;
 		if (startIndex > value->get_Length() - charCount) {
 			throw new ArgumentOutOfRangeException();
 		}
@@ -303,10 +309,10 @@ namespace DotnetLibrary
 		return (Append(data));
 	}
 	StringBuilder* StringBuilder::AppendLine() {
-		Append(L'\r');
-		return (Append(L'\n'));
+		return (Append(L"\r\n", 2));
 	}
 	StringBuilder* StringBuilder::AppendLine(String* value) {
+		EnsureRoomFor(value == nullptr ? 2 : Math::Min(value->get_Length(), MaximumCapacity - 2) + 2);
 		Append(value);
 		return (AppendLine());
 	}
-- 
2.43.0


From f34bb4d28933dd52c0a422b929d7876b59dc6754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:48 +0000
Subject: [PATCH 28/82] fix: take the rest of the array when no count is given

---
 DotNetLibrary/src/StringBuilder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index 23e3ee9..3842644 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -211,7 +211,7 @@ namespace DotnetLibrary
 			startIndex = 0;
 		}
 		if (charCount < 0) {
-			charCount = values->get_Length();
+			charCount = values->get_Length() - startIndex;
 		}
 		if (charCount == 0) {
 			return (this);
@@ -376,7 +376,7 @@ namespace DotnetLibrary
 			startIndex = 0;
 		}
 		if (charCount < 0) {
-			charCount = values->get_Length();
+			charCount = values->get_Length() - startIndex;
 		}
 		if (charCount == 0) {
 			return (this);
-- 
2.43.0


From 48e68e04a3d546a0bbece3eef89e36f73e42b027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:49 +0000
Subject: [PATCH 29/82] fix: move the remaining characters safely when removing

---
 DotNetLibrary/src/StringBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index 3842644..fd568d5 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -351,7 +351,7 @@ namespace DotnetLibrary
 			throw new ArgumentOutOfRangeException();
 		}
 		Int32 howmany = currentLength - startIndex - length;
-		memcpy(&chunkChars[startIndex], &chunkChars[startIndex + length], howmany * sizeof(Char));
+		memmove(&chunkChars[startIndex], &chunkChars[startIndex + length], howmany * sizeof(Char));
 		currentLength -= length;
 		chunkChars[currentLength] = 0;
 		return this;
-- 
2.43.0


From cc9bd704fecee6aa7a158bd5d93c2a53fc578e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:50 +0000
Subject: [PATCH 30/82] fix: check the length of the extracted text

---
 DotNetLibrary/src/StringBuilder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index fd568d5..2e1f906 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -175,9 +175,9 @@ namespace DotnetLibrary
 		return (new String(chunkChars, 0, currentLength));
 	}
 	String* StringBuilder::ToString(Int32 startIndex, Int32 length) {
-		if (startIndex < 0 || startIndex >= currentLength)
+		if (startIndex < 0 || startIndex > currentLength)
 			throw new IndexOutOfRangeException();
-		if (startIndex + length > currentLength)
+		if (length < 0 || length > currentLength - startIndex)
 			throw new IndexOutOfRangeException();
 		return (new String(&chunkChars[startIndex], 0, length));
 	}
-- 
2.43.0


From 96808e37dc14f63686487ce772f346f7ebb8185a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:51 +0000
Subject: [PATCH 31/82] fix: compare the whole text of builders

---
 DotNetLibrary/src/StringBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index 2e1f906..90f6f67 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -338,7 +338,7 @@ namespace DotnetLibrary
 	Boolean StringBuilder::Equals(StringBuilder* sb) {
 		if (sb == nullptr || sb->currentCapacity != currentCapacity || sb->maxCapacity != maxCapacity)
 			return (false);
-		return wcscmp(sb->chunkChars, chunkChars) == 0;
+		return sb->currentLength == currentLength && memcmp(sb->chunkChars, chunkChars, currentLength * sizeof(Char)) == 0;
 	}
 	StringBuilder* StringBuilder::Remove(Int32 startIndex, Int32 length) {
 		if (length < 0) {
-- 
2.43.0


From 7fa83206f1026655e799a849b6ead7e0bb28323b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:52 +0000
Subject: [PATCH 32/82] fix: check the arguments when counting sub strings

---
 DotNetLibrary/src/StringBuilder.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index 90f6f67..b6b3f05 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -153,6 +153,12 @@ namespace DotnetLibrary
 	}
 	Int32 StringBuilder::CountSubStrings(String* subString, Int32 startIndex, Int32 length) {
 		Int32 amount = 0;
+		if (subString == nullptr)
+			throw new ArgumentNullException();
+		if (startIndex < 0 || length < 0 || startIndex > currentLength - length)
+			throw new ArgumentOutOfRangeException();
+		if (subString->get_Length() == 0)
+			return (0);
 		Int32 endIndex = startIndex + 1 + length - subString->get_Length();
 		Int32 bytesToCompare = subString->get_Length() * sizeof(Char);
 		for (int i = startIndex; i < endIndex;) {
@@ -480,6 +486,9 @@ namespace DotnetLibrary
 		}
 		Int32 delta = replace->get_Length() - search->get_Length();
 		if (delta > 0) {
+			if (delta > (maxCapacity - currentLength) / howMany) {
+				throw new ArgumentOutOfRangeException();
+			}
 			EnsureRoomFor(delta * howMany);
 		}
 		ReplaceSubString(search, replace, startIndex, count);
-- 
2.43.0


From 9690be5d447e7944a5fce5ceb77de750af5fa3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:08 +0000
Subject: [PATCH 33/82] fix: check position, text and count when inserting into
 a StringBuilder

---
 DotNetLibrary/include/StringBuilder.h |  1 +
 DotNetLibrary/src/StringBuilder.cpp   | 36 +++++++++++++++++++++++++--
 2 files changed, 35 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/include/StringBuilder.h b/DotNetLibrary/include/StringBuilder.h
index bf0d81a..8634458 100644
--- a/DotNetLibrary/include/StringBuilder.h
+++ b/DotNetLibrary/include/StringBuilder.h
@@ -36,6 +36,7 @@ namespace DotnetLibrary
 		Int32 currentCapacity;	// total size of the array
 		Int32 currentLength;	// current offset into array for next insert
 		Int32 maxCapacity;		// max capacity for this builder
+		void EnsureInsertIndex(Int32 index);	// raise if index is not an insert position
 	public:
 		StringBuilder();
 		StringBuilder(Int32 capacity);
diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index b6b3f05..c8cec7a 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -197,7 +197,7 @@ namespace DotnetLibrary
 		if (where == -1) {
 			where = currentLength;
 		}
-		if (where > currentLength) {
+		if (where < 0 || where > currentLength) {
 			throw new IndexOutOfRangeException();
 		}
 		EnsureRoomFor(charCount);
@@ -332,6 +332,11 @@ namespace DotnetLibrary
 		}
 		EnsureCapacity(currentLength + amount);
 	}
+	void StringBuilder::EnsureInsertIndex(Int32 index) {
+		if (index < 0 || index > currentLength) {
+			throw new IndexOutOfRangeException();
+		}
+	}
 	Int32 StringBuilder::EnsureCapacity(Int32 capacity) {
 		if (capacity < 0) {
 			throw new ArgumentOutOfRangeException();
@@ -363,18 +368,22 @@ namespace DotnetLibrary
 		return this;
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, const Boolean value) {
+		EnsureInsertIndex(index);
 		BooleanValue data(value);
 		return (Append(data, index));
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, const Byte value) {
+		EnsureInsertIndex(index);
 		ByteValue data(value);
 		return (Append(data, index));
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, const Char value) {
+		EnsureInsertIndex(index);
 		CharValue data(value);
 		return (Append(data, index));
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, Array* values, Int32 startIndex, Int32 charCount) {
+		EnsureInsertIndex(index);
 		if (values == nullptr) {
 			return (this);
 		}
@@ -397,47 +406,70 @@ namespace DotnetLibrary
 		return (Append((Char*) values->Address(startIndex), charCount, index));
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, Double value) {
+		EnsureInsertIndex(index);
 		DoubleValue data(value);
 		return (Append(data, index));
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, const Int16 value) {
+		EnsureInsertIndex(index);
 		Int16Value data(value);
 		return (Append(data, index));
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, Int32 value) {
+		EnsureInsertIndex(index);
 		Int32Value data(value);
 		return (Append(data, index));
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, Int64 value) {
+		EnsureInsertIndex(index);
 		Int64Value data(value);
 		return (Append(data, index));
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, Object* value) {
+		EnsureInsertIndex(index);
+		if (value == nullptr) {
+			return (this);
+		}
 		return (Insert(index, value->ToString()));
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, String* value, Int32 count) {
+		EnsureInsertIndex(index);
+		if (count < 0) {
+			throw new ArgumentOutOfRangeException();
+		}
+		if (value == nullptr || value->get_Length() == 0 || count == 0) {
+			return (this);
+		}
+		if (count > (maxCapacity - currentLength) / value->get_Length()) {
+			throw new ArgumentOutOfRangeException();
+		}
 		for (int i = 0; i < count; ++i) {
-			Append((Char*) value->Address(0), value->get_Length(), index);
+			Append(value->get_Buffer(), value->get_Length(), index);
 		}
 		return (this);
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, const SByte value) {
+		EnsureInsertIndex(index);
 		SByteValue data(value);
 		return (Append(data, index));
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, const Single value) {
+		EnsureInsertIndex(index);
 		SingleValue data(value);
 		return (Append(data, index));
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, const UInt16 value) {
+		EnsureInsertIndex(index);
 		UInt16Value data(value);
 		return (Append(data, index));
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, UInt32 value) {
+		EnsureInsertIndex(index);
 		UInt32Value data(value);
 		return (Append(data, index));
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, const UInt64 value) {
+		EnsureInsertIndex(index);
 		UInt64Value data(value);
 		return (Append(data, index));
 	}
-- 
2.43.0


From a62744d86e98fa1a00dcca7caa9aff91f2a53a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:26 +0000
Subject: [PATCH 34/82] fix: append a builder's own characters safely

---
 DotNetLibrary/src/StringBuilder.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index c8cec7a..75e5bcb 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -200,6 +200,10 @@ namespace DotnetLibrary
 		if (where < 0 || where > currentLength) {
 			throw new IndexOutOfRangeException();
 		}
+		if (charCount > 0 && values >= chunkChars && values < chunkChars + currentLength) {
+			String copy(values, 0, charCount);
+			return (Append(copy.get_Buffer(), charCount, where));
+		}
 		EnsureRoomFor(charCount);
 		if (where != currentLength) {
 			memmove(&chunkChars[where + charCount], &chunkChars[where], (currentLength - where) * sizeof(Char));
-- 
2.43.0


From 8a9bca69ba05801fa93f8240a6c89f2048b98e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:35 +0000
Subject: [PATCH 35/82] fix: copy strings by length so they may contain NUL
 characters

---
 DotNetLibrary/include/StringDotNet.h |  7 +++++++
 DotNetLibrary/src/Object.cpp         |  2 +-
 DotNetLibrary/src/StringBuilder.cpp  | 10 ++++++----
 DotNetLibrary/src/StringDotNet.cpp   | 11 ++++++++---
 4 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/DotNetLibrary/include/StringDotNet.h b/DotNetLibrary/include/StringDotNet.h
index 277ae76..95160b7 100644
--- a/DotNetLibrary/include/StringDotNet.h
+++ b/DotNetLibrary/include/StringDotNet.h
@@ -161,6 +161,13 @@ namespace DotnetLibrary
 		 * @return copy of string
 		 */
 		static String* Copy(String* str);
+		/*!
+		 * Make string from an exact number of characters, any of which may be NUL
+		 * @param chars to copy
+		 * @param length number of characters
+		 * @return new string
+		 */
+		static String* FromChars(const Char* chars, const Int32 length);
 		/*!
 		 * Copy characters to array
 		 * @param sourceIndex starting character
diff --git a/DotNetLibrary/src/Object.cpp b/DotNetLibrary/src/Object.cpp
index 11678e2..469cfde 100644
--- a/DotNetLibrary/src/Object.cpp
+++ b/DotNetLibrary/src/Object.cpp
@@ -39,7 +39,7 @@ namespace DotnetLibrary
 		Char chars[128];
 		Int32 length = FormatString(chars, 128);
 		chars[length] = 0;
-		return (new String(chars, 0, length));
+		return (String::FromChars(chars, length));
 	}
 	Int32 Object::FormatString(Char* where, const Int32 whereSize) {
 		CopyChars(where, whereSize, (Char*) L"Object", 6);
diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index 75e5bcb..0ba80ff 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -178,14 +178,14 @@ namespace DotnetLibrary
 		*Address(index) = newChar;
 	}
 	String* StringBuilder::ToString() {
-		return (new String(chunkChars, 0, currentLength));
+		return (String::FromChars(chunkChars, currentLength));
 	}
 	String* StringBuilder::ToString(Int32 startIndex, Int32 length) {
 		if (startIndex < 0 || startIndex > currentLength)
 			throw new IndexOutOfRangeException();
 		if (length < 0 || length > currentLength - startIndex)
 			throw new IndexOutOfRangeException();
-		return (new String(&chunkChars[startIndex], 0, length));
+		return (String::FromChars(&chunkChars[startIndex], length));
 	}
 	Int32 StringBuilder::FormatString(Char* where, const Int32 whereSize) {
 		if (whereSize <= currentLength)
@@ -201,8 +201,10 @@ namespace DotnetLibrary
 			throw new IndexOutOfRangeException();
 		}
 		if (charCount > 0 && values >= chunkChars && values < chunkChars + currentLength) {
-			String copy(values, 0, charCount);
-			return (Append(copy.get_Buffer(), charCount, where));
+			String* copy = String::FromChars(values, charCount);
+			Append(copy->get_Buffer(), charCount, where);
+			delete copy;
+			return (this);
 		}
 		EnsureRoomFor(charCount);
 		if (where != currentLength) {
diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index f728fbd..6c14032 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -191,10 +191,15 @@ namespace DotnetLibrary
 		StringBuilder sb(this);
 		return (sb.CountSubStrings(substring, 0, length) != 0);
 	}
+	String* String::FromChars(const Char* chars, const Int32 length) {
+		String* str = new String((Char) 0, length);
+		memcpy(str->characterData, chars, length * sizeof(Char));
+		return (str);
+	}
 	String* String::Copy(String* str) {
 		if (nullptr == str)
 			throw new ArgumentNullException();
-		return (new String(str->characterData, 0, str->length));
+		return (FromChars(str->characterData, str->length));
 	}
 	void String::CopyTo(Int32 sourceIndex, Array* destination, Int32 destinationIndex, Int32 count) {
 		if (destination == nullptr)
@@ -538,7 +543,7 @@ namespace DotnetLibrary
 		if (startIndex == 0 && length == get_Length()) {
 			return this;
 		}
-		return (new String(this->characterData, startIndex, length));
+		return (FromChars(this->characterData + startIndex, length));
 	}
 	Array* String::ToCharArray(Int32 startIndex, Int32 length) {
 		if (startIndex < 0) {
@@ -640,7 +645,7 @@ namespace DotnetLibrary
 				}
 			}
 		}
-		return (new String(get_Buffer(), start, (end - start) + 1));
+		return (FromChars(get_Buffer() + start, (end - start) + 1));
 	}
 	Boolean String::IsWhiteSpace(Char value, Char* separators, Int32 separatorSize) {
 		for (Int32 i = 0; i < separatorSize; ++i) {
-- 
2.43.0


From bb468d441c0bb72e14ab9e328e404a04657abe50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:36 +0000
Subject: [PATCH 36/82] fix: check the slice a string is made from

---
 DotNetLibrary/src/StringDotNet.cpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index 6c14032..b8c6241 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -37,9 +37,12 @@ namespace DotnetLibrary
 	DotnetLibrary::String::String(const Char* string, const Int32 startIndex, Int32 length) {
 		if (string == nullptr)
 			throw new ArgumentOutOfRangeException();
+		Int32 available = (Int32) wcslen(string);
+		if (startIndex < 0 || startIndex > available)
+			throw new ArgumentOutOfRangeException();
 		if (length < 0)
-			length = (Int32) wcslen(string);
-		if (startIndex < 0 || startIndex > wcslen(string))
+			length = available - startIndex;
+		if (length > available - startIndex)
 			throw new ArgumentOutOfRangeException();
 
 		allocate = true;
@@ -52,16 +55,20 @@ namespace DotnetLibrary
 	}
 	String::String(Array* values, Int32 startIndex, Int32 length) {
 		allocate = true;
-		if (length < 0) {
-			length = values->get_Length();
+		if (startIndex < 0) {
+			startIndex = 0;
+		}
+		if (values != nullptr && length < 0) {
+			length = values->get_Length() - startIndex;
 		}
 		if (values == nullptr || length == 0) {
 			this->length = 0;
 			characterData = new Char[1];
+			characterData[0] = 0;
 			return;
 		}
-		if (startIndex < 0) {
-			startIndex = 0;
+		if (length < 0) {
+			throw new ArgumentOutOfRangeException();
 		}
 		if (length > values->get_Length() - startIndex) {
 			throw new ArgumentOutOfRangeException();
@@ -84,8 +91,6 @@ namespace DotnetLibrary
 		allocate = true;
 		this->length = amount;
 		characterData = new Char[length + 1];
-		if (chr == 0)
-			return;
 		for (size_t i = 0; i < amount; ++i) {
 			characterData[i] = chr;
 		}
-- 
2.43.0


From 7db4e26c409faac49f391f38c96ca3f26d634e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:21 +0000
Subject: [PATCH 37/82] fix: compare whole strings with a consistent order

---
 DotNetLibrary/include/StringDotNet.h |  2 +
 DotNetLibrary/src/StringDotNet.cpp   | 67 ++++++++++++++++++----------
 2 files changed, 45 insertions(+), 24 deletions(-)

diff --git a/DotNetLibrary/include/StringDotNet.h b/DotNetLibrary/include/StringDotNet.h
index 95160b7..82f4f47 100644
--- a/DotNetLibrary/include/StringDotNet.h
+++ b/DotNetLibrary/include/StringDotNet.h
@@ -33,6 +33,8 @@ namespace DotnetLibrary
 		Char* characterData;
 		Int32 length;
 		Boolean allocate;
+		static Int32 CompareText(Char* str1, Int32 length1, Char* str2, Int32 length2, Boolean ignoreCase, Boolean doOrdinal);
+		static Int32 CompareRange(String* s1, Int32 index1, String* s2, Int32 index2, Int32 length, Boolean ignoreCase, Boolean doOrdinal);
 	public:
 		String(const Char* string);
 		String(const Char* string, Int32 startIndex, Int32 length = -1);
diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index b8c6241..ba142c0 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -113,41 +113,60 @@ namespace DotnetLibrary
 	                      Boolean doOrdinal) {
 		Char* str1 = s1 + s1Index;
 		Char* str2 = s2 + s2Index;
-		Char c1 = 0;
-		Char c2 = 0;
-		while (length > 0) {
-			if (ignoreCase) {
-				c1 = towlower(*str1++);
-				c2 = towlower(*str2++);
+		Int32 length1 = 0;
+		Int32 length2 = 0;
+		while (length1 < length && str1[length1] != 0)
+			++length1;
+		while (length2 < length && str2[length2] != 0)
+			++length2;
+		return (CompareText(str1, length1, str2, length2, ignoreCase, doOrdinal));
+	}
+	Int32 String::CompareText(Char* str1, Int32 length1, Char* str2, Int32 length2, Boolean ignoreCase,
+	                          Boolean doOrdinal) {
+		Int32 caseDifference = 0;
+		for (Int32 i = 0; i < length1 && i < length2; ++i) {
+			Char c1 = str1[i];
+			Char c2 = str2[i];
+			if (c1 == c2)
+				continue;
+			if (ignoreCase || !doOrdinal) {
+				// case only matters when there is no other difference, lower case is first
+				if (caseDifference == 0 && !ignoreCase)
+					caseDifference = c1 < c2 ? 1 : -1;
+				c1 = towlower(c1);
+				c2 = towlower(c2);
+				if (c1 == c2)
+					continue;
 			}
-			else {
-				c1 = *str1++;
-				c2 = *str2++;
-				if (!doOrdinal) {
-					if (CharValue::IsUpper(c1) && CharValue::IsLower(c2))
-						return (1);
-					if (CharValue::IsUpper(c2) && CharValue::IsLower(c1))
-						return (-1);
-				}
-			}
-			if (c1 == L'\0' || c1 != c2)
-				return c1 > c2 ? 1 : (c1 < c2 ? -1 : 0);
-			--length;
+			return c1 > c2 ? 1 : -1;
 		}
-		return 0;
+		if (length1 != length2)
+			return length1 > length2 ? 1 : -1;
+		return (caseDifference);
+	}
+	Int32 String::CompareRange(String* s1, Int32 index1, String* s2, Int32 index2, Int32 length, Boolean ignoreCase,
+	                           Boolean doOrdinal) {
+		if (s1 == nullptr || s2 == nullptr)
+			return (s1 == s2 ? 0 : (s1 == nullptr ? -1 : 1));
+		if (length < 0 || index1 < 0 || index2 < 0 || index1 > s1->length || index2 > s2->length)
+			throw new ArgumentOutOfRangeException();
+		Int32 length1 = s1->length - index1;
+		Int32 length2 = s2->length - index2;
+		return (CompareText(s1->characterData + index1, length1 < length ? length1 : length,
+		                    s2->characterData + index2, length2 < length ? length2 : length, ignoreCase, doOrdinal));
 	}
 	Int32 String::Compare(String* s1, String* s2, Boolean ignoreCase) {
-		return (Compare(s1->get_Buffer(), 0, s2->get_Buffer(), 0, s1->get_Length(), ignoreCase, false));
+		return (CompareRange(s1, 0, s2, 0, Int32Value::MaxValue, ignoreCase, false));
 	}
 	Int32 String::Compare(String* s1, const Int32 index1, String* s2, const Int32 index2, const Int32 length,
 	                      Boolean ignoreCase) {
-		return (Compare(s1->get_Buffer(), index1, s2->get_Buffer(), index2, length, ignoreCase, false));
+		return (CompareRange(s1, index1, s2, index2, length, ignoreCase, false));
 	}
 	Int32 String::CompareOrdinal(String* s1, String* s2) {
-		return (Compare(s1->get_Buffer(), 0, s2->get_Buffer(), 0, s1->get_Length(), false, true));
+		return (CompareRange(s1, 0, s2, 0, Int32Value::MaxValue, false, true));
 	}
 	Int32 String::CompareOrdinal(String* s1, const Int32 index1, String* s2, const Int32 index2, const Int32 length) {
-		return (Compare(s1->get_Buffer(), index1, s2->get_Buffer(), index2, length, false, true));
+		return (CompareRange(s1, index1, s2, index2, length, false, true));
 	}
 	Int32 String::CompareTo(Object* value) {
 		if (value == nullptr)
-- 
2.43.0


From c7e5b29e8b016a7d4025d6e60206791f07c30c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:22 +0000
Subject: [PATCH 38/82] fix: compare strings given as objects and to their full
 length

---
 DotNetLibrary/src/StringDotNet.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index ba142c0..cf5f93f 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -173,8 +173,7 @@ namespace DotnetLibrary
 			return (1);
 		if (value->GetRawDataType() != StringType)
 			throw new ArgumentException();
-		CompareTo((String*) value);
-		return Int32();
+		return CompareTo((String*) value);
 	}
 	Int32 String::CompareTo(String* str) {
 		if (str == nullptr)
@@ -271,7 +270,7 @@ namespace DotnetLibrary
 		if (str == nullptr || str2 == nullptr || str->get_Length() != str2->get_Length()) {
 			return true;
 		}
-		return wcscmp(str->get_Buffer(), str2->get_Buffer()) != 0;
+		return memcmp(str->get_Buffer(), str2->get_Buffer(), str->get_Length() * sizeof(Char)) != 0;
 	}
 	Boolean String::Equals(Object* object) {
 		if (object == nullptr || object->GetRawDataType() != StringType)
@@ -282,12 +281,16 @@ namespace DotnetLibrary
 		return !op_Inequality(this, object);
 	}
 	Boolean String::Equals(String* object, Object* object2) {
-		if (object2 == nullptr || object2->GetRawDataType() != StringType)
+		if (object2 == nullptr)
+			return (object == nullptr);
+		if (object2->GetRawDataType() != StringType)
 			return (false);
 		return !op_Inequality(object, (String*) object2);
 	}
 	Boolean String::Equals(Object* object, String* object2) {
-		if (object == nullptr || object->GetRawDataType() != StringType)
+		if (object == nullptr)
+			return (object2 == nullptr);
+		if (object->GetRawDataType() != StringType)
 			return (false);
 		return !op_Inequality((String*) object, object2);
 	}
-- 
2.43.0


From 7dbbf80bc92f3cf2c6b912e95c97d9683668fa47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:23 +0000
Subject: [PATCH 39/82] fix: check the element type and window when joining,
 and treat null as nothing

---
 DotNetLibrary/src/StringDotNet.cpp | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index cf5f93f..9a3d009 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -184,7 +184,7 @@ namespace DotnetLibrary
 		if (nullptr == values)
 			throw new ArgumentNullException();
 		values->EnsureSingleDimension();
-		if (values->GetRawDataType() != ObjectType && values->GetRawDataType() != StringType)
+		if (values->GetElementType() != ObjectType && values->GetElementType() != StringType)
 			throw new ArgumentNullException();
 		StringBuilder sb;
 		for (int i = 0; i < values->get_Length(); ++i)
@@ -192,10 +192,9 @@ namespace DotnetLibrary
 		return (sb.ToString());
 	}
 	String* String::Concat(Object* o1, Object* o2, Object* o3, Object* o4, Object* o5, Object* o6, Object* o7) {
-		if (nullptr == o1)
-			throw new ArgumentNullException();
 		StringBuilder sb;
-		sb.Append(o1);
+		if (o1 != nullptr)
+			sb.Append(o1);
 		if (o2 != nullptr)
 			sb.Append(o2);
 		if (o3 != nullptr)
@@ -396,13 +395,10 @@ namespace DotnetLibrary
 		if (values == nullptr) {
 			throw new ArgumentNullException();
 		}
-		if (values->get_Length() == 0) {
-			return String::Empty;
-		}
 		values->EnsureSingleDimension();
-		if (values->GetRawDataType() != ObjectType && values->GetRawDataType() != StringType)
+		if (values->GetElementType() != ObjectType && values->GetElementType() != StringType)
 			throw new ArgumentNullException();
-		if (startIndex < 0)
+		if (startIndex < 0 || startIndex > values->get_Length())
 			throw new ArgumentNullException();
 		if (count < 0)
 			count = values->get_Length() - startIndex;
@@ -423,13 +419,10 @@ namespace DotnetLibrary
 		if (values == nullptr) {
 			throw new ArgumentNullException();
 		}
-		if (values->get_Length() == 0) {
-			return String::Empty;
-		}
 		values->EnsureSingleDimension();
-		if (values->GetRawDataType() != ObjectType && values->GetRawDataType() != StringType)
+		if (values->GetElementType() != ObjectType && values->GetElementType() != StringType)
 			throw new ArgumentNullException();
-		if (startIndex < 0)
+		if (startIndex < 0 || startIndex > values->get_Length())
 			throw new ArgumentNullException();
 		if (count < 0)
 			count = values->get_Length() - startIndex;
-- 
2.43.0


From 517e217afa46c4007103c567841c5f668120ef19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:46 +0000
Subject: [PATCH 40/82] fix: search for empty and long texts inside the string

---
 DotNetLibrary/src/StringDotNet.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index 9a3d009..c4a39f0 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -210,8 +210,7 @@ namespace DotnetLibrary
 		return (sb.ToString());
 	}
 	Boolean String::Contains(String* substring) {
-		StringBuilder sb(this);
-		return (sb.CountSubStrings(substring, 0, length) != 0);
+		return (IndexOf(substring) != -1);
 	}
 	String* String::FromChars(const Char* chars, const Int32 length) {
 		String* str = new String((Char) 0, length);
@@ -253,8 +252,10 @@ namespace DotnetLibrary
 		if (what->length == 0) {
 			return true;
 		}
-		StringBuilder sb(this);
-		return (sb.CountSubStrings(what, length - what->get_Length(), what->get_Length()) != 0);
+		if (what->length > length) {
+			return false;
+		}
+		return (memcmp(characterData + length - what->length, what->characterData, what->length * sizeof(Char)) == 0);
 	}
 	Boolean String::EndsWith(Char what) {
 		int lastPos = get_Length() - 1;
@@ -541,8 +542,10 @@ namespace DotnetLibrary
 		if (what->length == 0) {
 			return true;
 		}
-		StringBuilder sb(this);
-		return (sb.CountSubStrings(what, 0, what->get_Length()) != 0);
+		if (what->length > length) {
+			return false;
+		}
+		return (memcmp(characterData, what->characterData, what->length * sizeof(Char)) == 0);
 	}
 	String* String::Substring(const Int32 startIndex, Int32 length) {
 		if (startIndex < 0) {
-- 
2.43.0


From 9efcc0b7041ba91ed8bd0a24ce03a00e90f7f47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:47 +0000
Subject: [PATCH 41/82] fix: find texts only inside the searched window

---
 DotNetLibrary/src/StringDotNet.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index c4a39f0..42cacd1 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -307,6 +307,8 @@ namespace DotnetLibrary
 		return IndexOf(value, startIndex, length - startIndex);
 	}
 	Int32 String::IndexOf(const Char value, const Int32 startIndex, const Int32 count) {
+		if (startIndex < 0 || count < 0)
+			throw new ArgumentNullException();
 		if (count > length - startIndex)
 			throw new ArgumentNullException();
 		Int32 endIndex = startIndex + count;
@@ -333,12 +335,12 @@ namespace DotnetLibrary
 			throw new ArgumentNullException();
 		if (count > length - startIndex)
 			throw new ArgumentNullException();
-		Char* found = wcsstr(get_Buffer() + startIndex, value->get_Buffer());
-		if (found == nullptr)
-			return (-1);
-		Int32 delta = found - get_Buffer();
-		Int32 endIndex = startIndex + count;
-		return (delta > endIndex ? -1 : delta);
+		Int32 endIndex = startIndex + count - value->length;
+		for (Int32 index = startIndex; index <= endIndex; ++index) {
+			if (memcmp(characterData + index, value->characterData, value->length * sizeof(Char)) == 0)
+				return (index);
+		}
+		return (-1);
 	}
 	Int32 String::IndexOfAny(Array* arr) {
 		if (arr == nullptr)
-- 
2.43.0


From 1bfb31c9963d380ef7d2e67b72a13f1e4f26e7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:59 +0000
Subject: [PATCH 42/82] fix: check the window when searching backwards

---
 DotNetLibrary/src/StringDotNet.cpp | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index 42cacd1..bcf9e85 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -447,6 +447,10 @@ namespace DotnetLibrary
 			startIndex = length - 1;
 		if (count < 0)
 			count = startIndex + 1;
+		if ((startIndex >= length && startIndex > 0) || count > startIndex + 1)
+			throw new ArgumentOutOfRangeException();
+		if (startIndex >= length)
+			return (-1);
 		Int32 endIndex = startIndex - count;
 		for (Int32 index = startIndex; index > endIndex; --index) {
 			if (get_Chars(index) == value)
@@ -461,14 +465,16 @@ namespace DotnetLibrary
 			startIndex = length - 1;
 		if (count < 0)
 			count = startIndex + 1;
+		if ((startIndex >= length && startIndex > 0) || count > startIndex + 1)
+			throw new ArgumentOutOfRangeException();
+		if (value->length == 0)
+			return (startIndex < 0 ? 0 : startIndex);
+		if (startIndex >= length)
+			return (-1);
 		Int32 endIndex = startIndex - count;
-		for (Int32 i = startIndex; i > endIndex; --i) {
-			Char* found = wcsstr(get_Buffer() + i, value->get_Buffer());
-			if (found != nullptr) {
-				Int32 delta = found - get_Buffer();
-				if (delta <= startIndex)
-					return (delta);
-			}
+		for (Int32 i = startIndex + 1 - value->length; i > endIndex; --i) {
+			if (memcmp(characterData + i, value->characterData, value->length * sizeof(Char)) == 0)
+				return (i);
 		}
 		return -1;
 	}
@@ -482,6 +488,10 @@ namespace DotnetLibrary
 		arr->EnsureSingleDimension();
 		if (arr->GetElementType() != CharType)
 			throw new ArgumentNullException();
+		if ((startIndex >= length && startIndex > 0) || count > startIndex + 1)
+			throw new ArgumentOutOfRangeException();
+		if (startIndex >= length)
+			return (-1);
 		Int32 endIndex = startIndex - count;
 		for (Int32 index = startIndex; index > endIndex; --index) {
 			for (Int32 arrayIndex = 0; arrayIndex < arr->get_Length(); ++arrayIndex) {
-- 
2.43.0


From 3b10376e94355a04b9ad3e487cac423d947fcef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:01 +0000
Subject: [PATCH 43/82] fix: allow copying no characters

---
 DotNetLibrary/src/StringDotNet.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index bcf9e85..b1ddc2f 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -236,6 +236,8 @@ namespace DotnetLibrary
 			throw new ArgumentNullException();
 		if (destinationIndex > destination->get_Length() - count || destinationIndex < 0)
 			throw new ArgumentNullException();
+		if (count == 0)
+			return;
 		Char* source = Address(sourceIndex);
 		Char* dest = (Char*) destination->Address(destinationIndex);
 		for (int i = 0; i < count; ++i) {
-- 
2.43.0


From 5b0288233817f4027ab5f133e000bae34e301c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:53 +0000
Subject: [PATCH 44/82] fix: check the position characters are copied out from

---
 DotNetLibrary/src/StringDotNet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index b1ddc2f..acb2e7d 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -583,7 +583,7 @@ namespace DotnetLibrary
 		return (FromChars(this->characterData + startIndex, length));
 	}
 	Array* String::ToCharArray(Int32 startIndex, Int32 length) {
-		if (startIndex < 0) {
+		if (startIndex < 0 || startIndex > get_Length()) {
 			throw new ArgumentOutOfRangeException();
 		}
 		if (length < 0) {
-- 
2.43.0


From 650f4da4d720333bdba6f074901e9f7761059fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:43 +0000
Subject: [PATCH 45/82] fix: let a grown builder lower its capacity

---
 DotNetLibrary/src/StringBuilder.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index 0ba80ff..3d9706d 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -123,7 +123,7 @@ namespace DotnetLibrary
 		if (capacity > maxCapacity) {
 			throw new ArgumentOutOfRangeException();
 		}
-		if (capacity < currentLength || (chunkChars != internalMemory && capacity < currentCapacity)) {
+		if (capacity < currentLength) {
 			throw new ArgumentOutOfRangeException();
 		}
 		if (currentCapacity >= capacity) {
@@ -136,7 +136,9 @@ namespace DotnetLibrary
 			if (partial > 0)
 				capacity += Math::Min(DefaultCapacity - partial, maxCapacity - capacity);
 			newArray = new Char[capacity + 1];
-			memcpy(newArray, chunkChars, currentLength * sizeof(Char));
+		}
+		if (newArray != chunkChars) {
+			memcpy(newArray, chunkChars, (currentLength + 1) * sizeof(Char));
 			if (chunkChars != internalMemory)
 				delete chunkChars;
 		}
-- 
2.43.0


From 1c4cd5a12c37e5989e4bae1ff9bb408502580068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:09 +0000
Subject: [PATCH 46/82] fix: do not take symbols for punctuation

---
 DotNetLibrary/src/CharValue.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/CharValue.cpp b/DotNetLibrary/src/CharValue.cpp
index fe95949..14a2733 100644
--- a/DotNetLibrary/src/CharValue.cpp
+++ b/DotNetLibrary/src/CharValue.cpp
@@ -17,6 +17,7 @@
 // DEALINGS IN THE SOFTWARE.
 #include "DotnetTypes.h"
 #include <wctype.h>
+#include <cwchar>
 
 namespace DotnetLibrary
 {
@@ -151,7 +152,8 @@ namespace DotnetLibrary
 		return IsDigit(v, index);
 	}
 	Boolean CharValue::IsPunctuation(Char v) {
-		return (iswpunct(v));
+		// symbols are not punctuation
+		return (iswpunct(v) && wcschr(L"$+<=>^`|~", v) == nullptr);
 	}
 	Boolean CharValue::IsPunctuation(String* v, Int32 index) {
 		if (v == nullptr)
-- 
2.43.0


From 25b302d11d2bc71a027ad83e22895e34e91bf878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:10 +0000
Subject: [PATCH 47/82] fix: do not take control characters for separators

---
 DotNetLibrary/src/CharValue.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/CharValue.cpp b/DotNetLibrary/src/CharValue.cpp
index 14a2733..ec1aea6 100644
--- a/DotNetLibrary/src/CharValue.cpp
+++ b/DotNetLibrary/src/CharValue.cpp
@@ -163,7 +163,7 @@ namespace DotnetLibrary
 		return (IsPunctuation(v->get_Chars(index)));
 	}
 	Boolean CharValue::IsSeparator(Char v) {
-		return IsWhiteSpace(v);
+		return (IsWhiteSpace(v) && !IsControl(v));
 	}
 	Boolean CharValue::IsSeparator(String* v, Int32 index) {
 		if (v == nullptr)
-- 
2.43.0


From bf2258bc1a90a2a4f34a1ff1e0fbb6e98f8d7a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:11 +0000
Subject: [PATCH 48/82] fix: report null Boolean text as a null argument

---
 DotNetLibrary/src/BooleanValue.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/BooleanValue.cpp b/DotNetLibrary/src/BooleanValue.cpp
index 00aba1b..dafe91f 100644
--- a/DotNetLibrary/src/BooleanValue.cpp
+++ b/DotNetLibrary/src/BooleanValue.cpp
@@ -104,7 +104,7 @@ namespace DotnetLibrary
 	}
 	Boolean BooleanValue::Parse(String* stringToParse) {
 		if (stringToParse == nullptr)
-			throw new ArgumentException();
+			throw new ArgumentNullException();
 		if (String::Compare(stringToParse, TrueString, true) == 0) {
 			return true;
 		}
-- 
2.43.0


From 9b8e863791653afaf1cb972c70d66bb0cef526a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:36 +0000
Subject: [PATCH 49/82] fix: reject text that is not a floating point number

---
 DotNetLibrary/include/DoubleValue.h |  8 +++++
 DotNetLibrary/src/DoubleValue.cpp   | 53 +++++++++++++++++++++--------
 2 files changed, 46 insertions(+), 15 deletions(-)

diff --git a/DotNetLibrary/include/DoubleValue.h b/DotNetLibrary/include/DoubleValue.h
index dafe94e..0efb043 100644
--- a/DotNetLibrary/include/DoubleValue.h
+++ b/DotNetLibrary/include/DoubleValue.h
@@ -192,6 +192,14 @@ namespace DotnetLibrary
 		 * @return true if good parse
 		 */
 		static Boolean TryParseInternal(Char* source, Int32 sourceLength, Double& result);
+		/*!
+		 * Extract the text of a floating point number without its surrounding white space
+		 * @param source of characters
+		 * @param sourceLength length of characters
+		 * @param number receives the text of the number
+		 * @return true if text is a decimal number or one of the names of the special values
+		 */
+		static Boolean GetNumberText(Char* source, Int32 sourceLength, StringBuilder& number);
 		/*!
 		 * Max value
 		 */
diff --git a/DotNetLibrary/src/DoubleValue.cpp b/DotNetLibrary/src/DoubleValue.cpp
index 4cf23b1..60a01b8 100644
--- a/DotNetLibrary/src/DoubleValue.cpp
+++ b/DotNetLibrary/src/DoubleValue.cpp
@@ -137,17 +137,15 @@ namespace DotnetLibrary
 	}
 	Double DoubleValue::Parse(String* stringToParse) {
 		Double rtn;
-		swscanf(stringToParse->get_Buffer(), L"%lG", &rtn);
+		if (!TryParseInternal(stringToParse, rtn))
+			throw new FormatException();
 		return (rtn);
 	}
 	Boolean DoubleValue::TryParse(String* source, Double& result) {
-		Boolean goodNumber = true;
-		Double value = 0;
+		result = 0;
 		if (source == nullptr)
 			return (false);
-		goodNumber = TryParseInternal(source->get_Buffer(), source->get_Length(), value);
-		result = value;
-		return (goodNumber);
+		return (TryParseInternal(source->get_Buffer(), source->get_Length(), result));
 	}
 	Boolean DoubleValue::TryParseInternal(String* source, Double& result) {
 		if (source == nullptr)
@@ -156,16 +154,41 @@ namespace DotnetLibrary
 	}
 	Boolean DoubleValue::TryParseInternal(Char* source, Int32 sourceLength, Double& result) {
 		result = 0;
-		Boolean gotNumber = false;
-		while (*source != 0 && sourceLength > 0) {
-			if (!CharValue::IsWhiteSpace(*source))
-				break;
+		StringBuilder number;
+		if (!GetNumberText(source, sourceLength, number))
+			return (false);
+		result = wcstod(number.get_Buffer(), nullptr);
+		return (true);
+	}
+	Boolean DoubleValue::GetNumberText(Char* source, Int32 sourceLength, StringBuilder& number) {
+		Char* end = source + sourceLength;
+		while (source < end && CharValue::IsWhiteSpace(*source))
+			++source;
+		while (source < end && CharValue::IsWhiteSpace(end[-1]))
+			--end;
+		number.Append(source, (Int32) (end - source));
+		if (wcscmp(number.get_Buffer(), L"NaN") == 0 || wcscmp(number.get_Buffer(), L"Infinity") == 0 || wcscmp(number.get_Buffer(), L"-Infinity") == 0)
+			return (source + wcslen(number.get_Buffer()) == end);
+		Int32 digits = 0;
+		if (source < end && (*source == L'-' || *source == L'+'))
 			++source;
-			--sourceLength;
+		for (; source < end && CharValue::IsDigit(*source); ++source)
+			++digits;
+		if (source < end && *source == L'.') {
+			++source;
+			for (; source < end && CharValue::IsDigit(*source); ++source)
+				++digits;
 		}
-		Double rtn;
-		gotNumber = swscanf(source, L"%lG", &rtn) == 1;
-		result = rtn;
-		return (gotNumber);
+		if (digits == 0)
+			return (false);
+		if (source < end && (*source == L'e' || *source == L'E')) {
+			++source;
+			if (source < end && (*source == L'-' || *source == L'+'))
+				++source;
+			digits = 0;
+			for (; source < end && CharValue::IsDigit(*source); ++source)
+				++digits;
+		}
+		return (digits > 0 && source == end);
 	}
 }
-- 
2.43.0


From c546d05b7518898bf48a154253eefdd41d999939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:37 +0000
Subject: [PATCH 50/82] fix: reject text that is not a single precision number

---
 DotNetLibrary/src/SingleValue.cpp | 26 +++++++++-----------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/DotNetLibrary/src/SingleValue.cpp b/DotNetLibrary/src/SingleValue.cpp
index 124ea53..201ef8e 100644
--- a/DotNetLibrary/src/SingleValue.cpp
+++ b/DotNetLibrary/src/SingleValue.cpp
@@ -144,17 +144,15 @@ namespace DotnetLibrary
 	}
 	Single SingleValue::Parse(String* stringToParse) {
 		Single rtn;
-		swscanf(stringToParse->get_Buffer(), L"%G", &rtn);
+		if (!TryParseInternal(stringToParse, rtn))
+			throw new FormatException();
 		return (rtn);
 	}
 	Boolean SingleValue::TryParse(String* source, Single& result) {
-		Boolean goodNumber = true;
-		Single value = 0;
+		result = 0;
 		if (source == nullptr)
 			return (false);
-		goodNumber = TryParseInternal(source->get_Buffer(), source->get_Length(), value);
-		result = value;
-		return (goodNumber);
+		return (TryParseInternal(source->get_Buffer(), source->get_Length(), result));
 	}
 	Boolean SingleValue::TryParseInternal(String* source, Single& result) {
 		if (source == nullptr)
@@ -163,17 +161,11 @@ namespace DotnetLibrary
 	}
 	Boolean SingleValue::TryParseInternal(Char* source, Int32 sourceLength, Single& result) {
 		result = 0;
-		Boolean gotNumber = false;
-		while (*source != 0 && sourceLength > 0) {
-			if (!CharValue::IsWhiteSpace(*source))
-				break;
-			++source;
-			--sourceLength;
-		}
-		Single rtn;
-		gotNumber = swscanf(source, L"%G", &rtn) == 1;
-		result = rtn;
-		return (gotNumber);
+		StringBuilder number;
+		if (!DoubleValue::GetNumberText(source, sourceLength, number))
+			return (false);
+		result = wcstof(number.get_Buffer(), nullptr);
+		return (true);
 	}
 	Single SingleValue::ToSingle(UInt32 v) {
 		union
-- 
2.43.0


From d701236a90613d986a6c11bf196ee782742cf67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:38 +0000
Subject: [PATCH 51/82] fix: write the names of the special floating point
 values

---
 DotNetLibrary/src/DoubleValue.cpp | 8 ++++++++
 DotNetLibrary/src/SingleValue.cpp | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/DotNetLibrary/src/DoubleValue.cpp b/DotNetLibrary/src/DoubleValue.cpp
index 60a01b8..54df9f3 100644
--- a/DotNetLibrary/src/DoubleValue.cpp
+++ b/DotNetLibrary/src/DoubleValue.cpp
@@ -126,6 +126,14 @@ namespace DotnetLibrary
 		return (bits < 0x7FF0000000000000) && (bits != 0) && ((bits & 0x7FF0000000000000) == 0);
 	}
 	Int32 DoubleValue::FormatString(Char* where, const Int32 whereSize) {
+		if (!IsFinite(value)) {
+			const Char* name = IsNaN(value) ? L"NaN" : value > 0 ? L"Infinity" : L"-Infinity";
+			Int32 length = (Int32) wcslen(name);
+			if (whereSize <= length)
+				throw new IndexOutOfRangeException();
+			CopyChars(where, whereSize, (Char*) name, length);
+			return (length);
+		}
 #ifdef __MINGW32__
 		return(swprintf(where, L"%G", value));
 #else
diff --git a/DotNetLibrary/src/SingleValue.cpp b/DotNetLibrary/src/SingleValue.cpp
index 201ef8e..61bfe65 100644
--- a/DotNetLibrary/src/SingleValue.cpp
+++ b/DotNetLibrary/src/SingleValue.cpp
@@ -133,6 +133,14 @@ namespace DotnetLibrary
 		return (bits < 0x7F800000) && (bits != 0) && ((bits & 0x7F800000) == 0);
 	}
 	Int32 SingleValue::FormatString(Char* where, const Int32 whereSize) {
+		if (!IsFinite(value)) {
+			const Char* name = IsNaN(value) ? L"NaN" : value > 0 ? L"Infinity" : L"-Infinity";
+			Int32 length = (Int32) wcslen(name);
+			if (whereSize <= length)
+				throw new IndexOutOfRangeException();
+			CopyChars(where, whereSize, (Char*) name, length);
+			return (length);
+		}
 #ifdef __MINGW32__
 		return(swprintf(where, L"%G", value));
 #else
-- 
2.43.0


From 0bb77722f7a4828871353e22104504f9f3c89da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:39 +0000
Subject: [PATCH 52/82] fix: write 15 significant digits of doubles and 7 of
 singles

---
 DotNetLibrary/src/DoubleValue.cpp | 4 ++--
 DotNetLibrary/src/SingleValue.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/DotNetLibrary/src/DoubleValue.cpp b/DotNetLibrary/src/DoubleValue.cpp
index 54df9f3..7170fda 100644
--- a/DotNetLibrary/src/DoubleValue.cpp
+++ b/DotNetLibrary/src/DoubleValue.cpp
@@ -135,9 +135,9 @@ namespace DotnetLibrary
 			return (length);
 		}
 #ifdef __MINGW32__
-		return(swprintf(where, L"%G", value));
+		return(swprintf(where, L"%.15G", value));
 #else
-		return (swprintf(where, whereSize, L"%G", value));
+		return (swprintf(where, whereSize, L"%.15G", value));
 #endif
 	}
 	Double DoubleValue::Modulus(Double v1, Double v2) {
diff --git a/DotNetLibrary/src/SingleValue.cpp b/DotNetLibrary/src/SingleValue.cpp
index 61bfe65..afdb4a3 100644
--- a/DotNetLibrary/src/SingleValue.cpp
+++ b/DotNetLibrary/src/SingleValue.cpp
@@ -142,9 +142,9 @@ namespace DotnetLibrary
 			return (length);
 		}
 #ifdef __MINGW32__
-		return(swprintf(where, L"%G", value));
+		return(swprintf(where, L"%.7G", value));
 #else
-		return (swprintf(where, whereSize, L"%G", value));
+		return (swprintf(where, whereSize, L"%.7G", value));
 #endif
 	}
 	Single SingleValue::Modulus(Single v1, Single v2) {
-- 
2.43.0


From f0b4c7a5ef4ca372ba08805df4f391645f90365c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:39 +0000
Subject: [PATCH 53/82] fix: declare the extreme double values exactly

---
 DotNetLibrary/src/DoubleValue.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/DoubleValue.cpp b/DotNetLibrary/src/DoubleValue.cpp
index 7170fda..3f745d2 100644
--- a/DotNetLibrary/src/DoubleValue.cpp
+++ b/DotNetLibrary/src/DoubleValue.cpp
@@ -22,8 +22,8 @@
 
 namespace DotnetLibrary
 {
-	DLL_EXPORT Double DoubleValue::MaxValue = 1.797693134862315E+308;
-	DLL_EXPORT Double DoubleValue::MinValue = -1.797693134862315E+308;
+	DLL_EXPORT Double DoubleValue::MaxValue = 1.7976931348623157E+308;
+	DLL_EXPORT Double DoubleValue::MinValue = -1.7976931348623157E+308;
 	DLL_EXPORT Double DoubleValue::Epsilon = 4.94065645841247E-324;
 	DLL_EXPORT Double DoubleValue::NaN = NAN;
 	DLL_EXPORT Double DoubleValue::PositiveInfinity = INFINITY;
-- 
2.43.0


From 5f8b6a84b0d3e35c8659b5855ebe545d91b77af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:56 +0000
Subject: [PATCH 54/82] fix: keep the 64-bit quotient in Math::DivRem

---
 DotNetLibrary/src/DotNetMath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/DotNetMath.cpp b/DotNetLibrary/src/DotNetMath.cpp
index 49624bd..56ec235 100644
--- a/DotNetLibrary/src/DotNetMath.cpp
+++ b/DotNetLibrary/src/DotNetMath.cpp
@@ -276,7 +276,7 @@ namespace DotnetLibrary
 	Int64 Math::DivRem(Int64 a, Int64 b, Int64& result) {
 		if (b == 0)
 			throw new DivideByZeroException();
-		Int32 div = a / b;
+		Int64 div = a / b;
 		result = a - (div * b);
 		return div;
 	}
-- 
2.43.0


From 5dd58a1e4b1250dce9577d41265012852d40f3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:57 +0000
Subject: [PATCH 55/82] fix: raise when an integer quotient is not
 representable

---
 DotNetLibrary/src/DotNetMath.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/DotNetLibrary/src/DotNetMath.cpp b/DotNetLibrary/src/DotNetMath.cpp
index 56ec235..b97038a 100644
--- a/DotNetLibrary/src/DotNetMath.cpp
+++ b/DotNetLibrary/src/DotNetMath.cpp
@@ -256,6 +256,8 @@ namespace DotnetLibrary
 	Int64 Math::Divide(Int64 v1, Int64 v2) {
 		if (v2 == 0)
 			throw new DivideByZeroException();
+		if (v2 == -1 && v1 == Int64Value::MinValue)
+			throw new OverflowException();
 		return v1 / v2;
 	}
 	Double Math::Divide(Double v1, Double v2) {
@@ -269,6 +271,8 @@ namespace DotnetLibrary
 	Int32 Math::DivRem(Int32 a, Int32 b, Int32& result) {
 		if (b == 0)
 			throw new DivideByZeroException();
+		if (b == -1 && a == Int32Value::MinValue)
+			throw new OverflowException();
 		Int32 div = a / b;
 		result = a - (div * b);
 		return div;
@@ -276,6 +280,8 @@ namespace DotnetLibrary
 	Int64 Math::DivRem(Int64 a, Int64 b, Int64& result) {
 		if (b == 0)
 			throw new DivideByZeroException();
+		if (b == -1 && a == Int64Value::MinValue)
+			throw new OverflowException();
 		Int64 div = a / b;
 		result = a - (div * b);
 		return div;
-- 
2.43.0


From f03c460bd27f788162af2a44e3ffb03b9d2ce49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:58 +0000
Subject: [PATCH 56/82] fix: use IEEE division in Math::Divide(Double, Double)

---
 DotNetLibrary/src/DotNetMath.cpp | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/DotNetLibrary/src/DotNetMath.cpp b/DotNetLibrary/src/DotNetMath.cpp
index b97038a..4719d8b 100644
--- a/DotNetLibrary/src/DotNetMath.cpp
+++ b/DotNetLibrary/src/DotNetMath.cpp
@@ -261,11 +261,6 @@ namespace DotnetLibrary
 		return v1 / v2;
 	}
 	Double Math::Divide(Double v1, Double v2) {
-		if (v2 == 0) {
-			if (v1 == 0)
-				return (DoubleValue::NaN);
-			return (DoubleValue::PositiveInfinity);
-		}
 		return v1 / v2;
 	}
 	Int32 Math::DivRem(Int32 a, Int32 b, Int32& result) {
-- 
2.43.0


From 834b1f9a707ae82bec4a9502738bdf96ebe00b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:59 +0000
Subject: [PATCH 57/82] fix: round only once in Math::FusedMultiplyAdd

---
 DotNetLibrary/src/DotNetMath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/DotNetMath.cpp b/DotNetLibrary/src/DotNetMath.cpp
index 4719d8b..d5aeb0b 100644
--- a/DotNetLibrary/src/DotNetMath.cpp
+++ b/DotNetLibrary/src/DotNetMath.cpp
@@ -294,7 +294,7 @@ namespace DotnetLibrary
 		return floor(v1);
 	}
 	Double Math::FusedMultiplyAdd(Double x, Double y, Double z) {
-		return (x * y) + z;
+		return fma(x, y, z);
 	}
 	Double Math::IEEERemainder(Double x, Double y) {
 		return remainder(x, y);
-- 
2.43.0


From 22f8bf90b3411c19e0b0809d586ba720fb179da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:00 +0000
Subject: [PATCH 58/82] fix: give ILogB of zero, infinity and NaN their .NET
 results

---
 DotNetLibrary/src/DotNetMath.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/DotNetMath.cpp b/DotNetLibrary/src/DotNetMath.cpp
index d5aeb0b..1d72de1 100644
--- a/DotNetLibrary/src/DotNetMath.cpp
+++ b/DotNetLibrary/src/DotNetMath.cpp
@@ -300,7 +300,11 @@ namespace DotnetLibrary
 		return remainder(x, y);
 	}
 	Int32 Math::ILogB(Double x) {
-		return logb(x);
+		if (x == 0)
+			return Int32Value::MinValue;
+		if (!DoubleValue::IsFinite(x))
+			return Int32Value::MaxValue;
+		return ilogb(x);
 	}
 	Double Math::Log(Double v1) {
 		return log(v1);
-- 
2.43.0


From fa3cdba93ca188f7f2a900589e045e5037097cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:01 +0000
Subject: [PATCH 59/82] fix: declare PI and E to full double precision

---
 DotNetLibrary/src/DotNetMath.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/DotNetMath.cpp b/DotNetLibrary/src/DotNetMath.cpp
index 1d72de1..5558f15 100644
--- a/DotNetLibrary/src/DotNetMath.cpp
+++ b/DotNetLibrary/src/DotNetMath.cpp
@@ -19,8 +19,8 @@
 #include <math.h>
 namespace DotnetLibrary
 {
-	DLL_EXPORT Double Math::PI = 3.14159265358979;
-	DLL_EXPORT Double Math::E = 2.71828182845905;
+	DLL_EXPORT Double Math::PI = 3.14159265358979323846;
+	DLL_EXPORT Double Math::E = 2.7182818284590452354;
 	const UInt64 ExponentMask = 0x7FF0000000000000;
 	const Int32 ExponentShift = 52;
 	const Int32 ShiftedExponentMask = (Int32) (ExponentMask >> ExponentShift);
-- 
2.43.0


From 4465ea7cf484edacad43ab622682bb79bcfce7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:19 +0000
Subject: [PATCH 60/82] fix: return integer absolute values exactly and raise
 when there is none

---
 DotNetLibrary/include/DotNetMath.h |  8 ++++----
 DotNetLibrary/src/DotNetMath.cpp   | 24 ++++++++++++++++--------
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/DotNetLibrary/include/DotNetMath.h b/DotNetLibrary/include/DotNetMath.h
index 7a68592..cdccdea 100644
--- a/DotNetLibrary/include/DotNetMath.h
+++ b/DotNetLibrary/include/DotNetMath.h
@@ -48,25 +48,25 @@ namespace DotnetLibrary
 		 * @param v1 value to use
 		 * @return Absolute value
 		 */
-		static Double Abs(Int16 v1);
+		static Int16 Abs(Int16 v1);
 		/*!
 		 * Absolute value
 		 * @param v1 value to use
 		 * @return Absolute value
 		 */
-		static Double Abs(Int32 v1);
+		static Int32 Abs(Int32 v1);
 		/*!
 		 * Absolute value
 		 * @param v1 value to use
 		 * @return Absolute value
 		 */
-		static Double Abs(Int64 v1);
+		static Int64 Abs(Int64 v1);
 		/*!
 		 * Absolute value
 		 * @param v1 value to use
 		 * @return Absolute value
 		 */
-		static Double Abs(SByte v1);
+		static SByte Abs(SByte v1);
 		/*!
 		 * Absolute value
 		 * @param v1 value to use
diff --git a/DotNetLibrary/src/DotNetMath.cpp b/DotNetLibrary/src/DotNetMath.cpp
index 5558f15..055492d 100644
--- a/DotNetLibrary/src/DotNetMath.cpp
+++ b/DotNetLibrary/src/DotNetMath.cpp
@@ -33,17 +33,25 @@ namespace DotnetLibrary
 	Double Math::Abs(Double v1) {
 		return fabs(v1);
 	}
-	Double Math::Abs(Int16 v1) {
-		return abs(v1);
+	Int16 Math::Abs(Int16 v1) {
+		if (v1 == Int16Value::MinValue)
+			throw new OverflowException();
+		return v1 < 0 ? -v1 : v1;
 	}
-	Double Math::Abs(Int32 v1) {
-		return abs(v1);
+	Int32 Math::Abs(Int32 v1) {
+		if (v1 == Int32Value::MinValue)
+			throw new OverflowException();
+		return v1 < 0 ? -v1 : v1;
 	}
-	Double Math::Abs(Int64 v1) {
-		return abs(v1);
+	Int64 Math::Abs(Int64 v1) {
+		if (v1 == Int64Value::MinValue)
+			throw new OverflowException();
+		return v1 < 0 ? -v1 : v1;
 	}
-	Double Math::Abs(SByte v1) {
-		return abs(v1);
+	SByte Math::Abs(SByte v1) {
+		if (v1 == SByteValue::MinValue)
+			throw new OverflowException();
+		return v1 < 0 ? -v1 : v1;
 	}
 	Double Math::Abs(Single v1) {
 		return fabs(v1);
-- 
2.43.0


From dbb035b170b5706446b1e83bc76dc3eb11961d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:37 +0000
Subject: [PATCH 61/82] fix: reject a negative hour in the DateTime constructor

---
 DotNetLibrary/src/DateTimeValue.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/DateTimeValue.cpp b/DotNetLibrary/src/DateTimeValue.cpp
index 2748a12..235c063 100644
--- a/DotNetLibrary/src/DateTimeValue.cpp
+++ b/DotNetLibrary/src/DateTimeValue.cpp
@@ -74,8 +74,7 @@ namespace DotnetLibrary
 	}
 	DateTime::DateTime(Int32 year, Int32 month, Int32 day, Int32 hour, Int32 minute, Int32 second, Int32 millisecond) {
 		value = DateToTicks(year, month, day);
-		if (hour >= 0)
-			value += TimeToTicks(hour, minute, second, millisecond);
+		value += TimeToTicks(hour, minute, second, millisecond);
 	}
 
 	DateTime DateTimeValue::get_UtcNow() {
-- 
2.43.0


From 99bb91509ae7d5e2981c3bed2d350c1a1dabef3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:38 +0000
Subject: [PATCH 62/82] fix: reject 1000 milliseconds as a time part

---
 DotNetLibrary/src/DateTimeValue.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/DateTimeValue.cpp b/DotNetLibrary/src/DateTimeValue.cpp
index 235c063..7ce0330 100644
--- a/DotNetLibrary/src/DateTimeValue.cpp
+++ b/DotNetLibrary/src/DateTimeValue.cpp
@@ -52,7 +52,7 @@ namespace DotnetLibrary
 		Int64 totalSeconds = (Int64) days * 3600 * 24 + (Int64) hour * 3600 + (Int64) minute * 60 + (Int64) second;
 		if (totalSeconds > MaxSeconds || totalSeconds < MinSeconds)
 			throw new ArgumentOutOfRangeException();
-		if (milliseconds < 0 || milliseconds > 1000)
+		if (milliseconds < 0 || milliseconds >= 1000)
 			throw new ArgumentOutOfRangeException();
 		return ((totalSeconds * TicksPerSecond) + (milliseconds * TicksPerMillisecond));
 	}
-- 
2.43.0


From 3acd24aefed5a036f6a2b1517be4ca8ac6d92686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:39 +0000
Subject: [PATCH 63/82] fix: reject NaN amounts when adding to a date

---
 DotNetLibrary/src/DateTimeValue.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/DateTimeValue.cpp b/DotNetLibrary/src/DateTimeValue.cpp
index 7ce0330..51b3380 100644
--- a/DotNetLibrary/src/DateTimeValue.cpp
+++ b/DotNetLibrary/src/DateTimeValue.cpp
@@ -106,7 +106,7 @@ namespace DotnetLibrary
 	}
 	DateTime DateTimeValue::Add(Double value, Int32 scale) {
 		Double millis_double = value * (Double) scale + (value >= 0 ? 0.5 : -0.5);
-		if (millis_double <= (Double) -MaxMillis || millis_double >= (Double) MaxMillis)
+		if (!(millis_double > (Double) -MaxMillis && millis_double < (Double) MaxMillis))
 			throw new ArgumentOutOfRangeException();
 		return AddTicks((Int64) millis_double * TicksPerMillisecond);
 	}
-- 
2.43.0


From 33618daf0abacf2d333976354cc6da6f4e17da82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:40 +0000
Subject: [PATCH 64/82] fix: let the platform decide about daylight saving time

---
 DotNetLibrary/src/DateTimeValue.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/DateTimeValue.cpp b/DotNetLibrary/src/DateTimeValue.cpp
index 51b3380..3486e15 100644
--- a/DotNetLibrary/src/DateTimeValue.cpp
+++ b/DotNetLibrary/src/DateTimeValue.cpp
@@ -253,8 +253,9 @@ namespace DotnetLibrary
 		timeinfo.tm_mon = get_Month() - 1;
 		timeinfo.tm_sec = get_Second();
 		timeinfo.tm_year = get_Year() - 1900;
+		timeinfo.tm_isdst = -1;
 		rawtime = mktime(&timeinfo);
-		return (timeinfo.tm_isdst != 0);
+		return (timeinfo.tm_isdst > 0);
 	}
 	Boolean DateTimeValue::IsLeapYear(Int32 year) {
 		if (year < 1 || year > 9999) {
-- 
2.43.0


From 30877e399c064a68da3e05a6e442d932a9ac00a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:18 +0000
Subject: [PATCH 65/82] fix: convert between local and universal time with the
 zone's full offset at that instant

---
 DotNetLibrary/include/DateTimeValue.h |  3 ++-
 DotNetLibrary/src/DateTimeValue.cpp   | 18 +++++++++---------
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/DotNetLibrary/include/DateTimeValue.h b/DotNetLibrary/include/DateTimeValue.h
index 67a520a..585f1bc 100644
--- a/DotNetLibrary/include/DateTimeValue.h
+++ b/DotNetLibrary/include/DateTimeValue.h
@@ -80,9 +80,10 @@ namespace DotnetLibrary
 
 		/*!
 		 * Get Time zone as TimeSpan
+		 * @param utc universal time to get the zone's offset for
 		 * @return Time zone delta as TimeSpan
 		 */
-		TimeSpan GetTimeZone();
+		TimeSpan GetTimeZone(const DateTime& utc);
 	public:
 		DateTimeValue() {
 			value = 0;
diff --git a/DotNetLibrary/src/DateTimeValue.cpp b/DotNetLibrary/src/DateTimeValue.cpp
index 3486e15..9e77c88 100644
--- a/DotNetLibrary/src/DateTimeValue.cpp
+++ b/DotNetLibrary/src/DateTimeValue.cpp
@@ -305,28 +305,28 @@ namespace DotnetLibrary
 		return ToLocalTime(false);
 	}
 
-	TimeSpan DateTimeValue::GetTimeZone() {
+	TimeSpan DateTimeValue::GetTimeZone(const DateTime& utc) {
 #ifdef WIN32
 		_tzset();
 #else
 		tzset();
 #endif
-		time_t rawTime = time(nullptr);
-		struct tm* utcInfo = gmtime(&rawTime);
-		int gmHour = utcInfo->tm_hour;
+		time_t rawTime = (time_t) ((Int64) (utc.value / TicksPerSecond) - (Int64) DaysTo1970 * 24 * 3600);
 		struct tm* localInfo = localtime(&rawTime);
-		int lcHour = localInfo->tm_hour;
-		TimeSpan ts = TimeSpan(lcHour - gmHour, 0, 0);
-		return ts;
+		if (localInfo == nullptr)
+			return TimeSpan();
+		DateTime local(localInfo->tm_year + 1900, localInfo->tm_mon + 1, localInfo->tm_mday, localInfo->tm_hour, localInfo->tm_min, localInfo->tm_sec);
+		return TimeSpan((Int64) (local.value - (utc.value - utc.value % TicksPerSecond)));
 	}
 
 	DateTime DateTimeValue::ToLocalTime(Boolean throwOnOverflow) {
-		TimeSpan ts = GetTimeZone();
+		TimeSpan ts = GetTimeZone(value);
 		DateTime rtn = Add(ts);
 		return (rtn.value);
 	}
 	DateTime DateTimeValue::ToUniversalTime() {
-		TimeSpan ts = GetTimeZone();
+		// the offset at the instant the local time stands for, not at the same reading of the universal clock
+		TimeSpan ts = GetTimeZone(Subtract(GetTimeZone(value)));
 		DateTime rtn = Subtract(ts);
 		return (rtn.value);
 	}
-- 
2.43.0


From f294d39fef534e8538d2cdfef987450c4c14bb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:00 +0000
Subject: [PATCH 66/82] fix: TimeSpan MinValue and MaxValue are the extreme
 tick counts

---
 DotNetLibrary/src/TimeSpanValue.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/TimeSpanValue.cpp b/DotNetLibrary/src/TimeSpanValue.cpp
index ea2841b..8e232f5 100644
--- a/DotNetLibrary/src/TimeSpanValue.cpp
+++ b/DotNetLibrary/src/TimeSpanValue.cpp
@@ -20,8 +20,8 @@
 
 namespace DotnetLibrary
 {
-	DLL_EXPORT TimeSpan TimeSpanValue::MaxValue = TimeSpan(UInt64Value::MaxValue);
-	DLL_EXPORT TimeSpan TimeSpanValue::MinValue = TimeSpan(UInt64Value::MinValue);
+	DLL_EXPORT TimeSpan TimeSpanValue::MaxValue = TimeSpan(0x7FFFFFFFFFFFFFFFLL);
+	DLL_EXPORT TimeSpan TimeSpanValue::MinValue = TimeSpan(-0x7FFFFFFFFFFFFFFFLL - 1);
 	DLL_EXPORT Int64 TimeSpanValue::TicksPerMillisecond = 10000;
 	DLL_EXPORT Int64 TimeSpanValue::TicksPerSecond = TicksPerMillisecond * 1000;
 	DLL_EXPORT Int64 TimeSpanValue::TicksPerMinute = TicksPerSecond * 60;
-- 
2.43.0


From 144512031a2afd1bf4975588b9dc5ace8af5f02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:01 +0000
Subject: [PATCH 67/82] fix: detect overflow when subtracting time spans of
 opposite signs

---
 DotNetLibrary/src/TimeSpanValue.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DotNetLibrary/src/TimeSpanValue.cpp b/DotNetLibrary/src/TimeSpanValue.cpp
index 8e232f5..9257a5e 100644
--- a/DotNetLibrary/src/TimeSpanValue.cpp
+++ b/DotNetLibrary/src/TimeSpanValue.cpp
@@ -89,7 +89,7 @@ namespace DotnetLibrary
 		return value;
 	}
 	TimeSpan TimeSpanValue::Add(const TimeSpan& ts) {
-		Int64 result = value.value + ts.value;
+		Int64 result = (Int64) ((UInt64) value.value + (UInt64) ts.value);
 		if ((value.value >> 63 == ts.value >> 63) && (value.value >> 63 != result >> 63))
 			throw new OverflowException();
 		return TimeSpan(result);
@@ -241,8 +241,8 @@ namespace DotnetLibrary
 		return (results);
 	}
 	TimeSpan TimeSpanValue::Subtract(const TimeSpan& ts) {
-		Int64 result = value.value - ts.value;
-		if ((value.value >> 63 == ts.value >> 63) && (value.value >> 63 != result >> 63))
+		Int64 result = (Int64) ((UInt64) value.value - (UInt64) ts.value);
+		if ((value.value >> 63 != ts.value >> 63) && (value.value >> 63 != result >> 63))
 			throw new OverflowException();
 		return TimeSpan(result);
 	}
-- 
2.43.0


From e806e2745157ee5cca9ac97ebda54e6b1254a735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:02 +0000
Subject: [PATCH 68/82] fix: time span scaling never converts an
 unrepresentable tick count

---
 DotNetLibrary/src/TimeSpanValue.cpp | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/DotNetLibrary/src/TimeSpanValue.cpp b/DotNetLibrary/src/TimeSpanValue.cpp
index 9257a5e..44e326d 100644
--- a/DotNetLibrary/src/TimeSpanValue.cpp
+++ b/DotNetLibrary/src/TimeSpanValue.cpp
@@ -29,6 +29,14 @@ namespace DotnetLibrary
 	DLL_EXPORT Int64 TimeSpanValue::TicksPerDay = TicksPerHour * 24;
 	DLL_EXPORT TimeSpan TimeSpanValue::Zero = TimeSpan(0);
 
+	static TimeSpan FromDoubleTicks(Double ticks) {
+		// (Double) Int64Value::MaxValue is 2^63, which is out of range
+		if (DoubleValue::IsNaN(ticks) || ticks > (Double) Int64Value::MaxValue || ticks < (Double) Int64Value::MinValue)
+			throw new OverflowException();
+		if (ticks == (Double) Int64Value::MaxValue)
+			return TimeSpan(Int64Value::MaxValue);
+		return TimeSpan((Int64) ticks);
+	}
 	Int64 TimeToTicks(Int32 hour, Int32 minute, Int32 second) {
 		// totalSeconds is bounded by 2^31 * 2^12 + 2^31 * 2^8 + 2^31,
 		// which is less than 2^44, meaning we won't overflow totalSeconds.
@@ -129,10 +137,7 @@ namespace DotnetLibrary
 			throw new ArgumentException();
 		}
 		Double ticks = Math::Round(value.value / divisor);
-		if (ticks > Int64Value::MaxValue || ticks < Int64Value::MinValue || DoubleValue::IsNaN(ticks)) {
-			throw new OverflowException();
-		}
-		return FromTicks((Int64) ticks);
+		return FromDoubleTicks(ticks);
 	}
 	TimeSpan TimeSpanValue::Duration() {
 		if (value.value == TimeSpanValue::MinValue.value)
@@ -211,20 +216,14 @@ namespace DotnetLibrary
 	TimeSpan TimeSpanValue::Interval(Double value, Double scale) {
 		if (DoubleValue::IsNaN(value))
 			throw new ArgumentException();
-		Double ticks = value * scale;
-		if ((ticks > Int64Value::MaxValue) || (ticks < Int64Value::MinValue))
-			throw new OverflowException();
-		return (Int64) ticks;
+		return FromDoubleTicks(value * scale);
 	}
 	TimeSpan TimeSpanValue::Multiply(Double factor) {
 		if (DoubleValue::IsNaN(factor)) {
 			throw new ArgumentException();
 		}
 		Double ticks = Math::Round(value.value * factor);
-		if (ticks > Int64Value::MaxValue || ticks < Int64Value::MinValue) {
-			throw new OverflowException();
-		}
-		return FromTicks((Int64) ticks);
+		return FromDoubleTicks(ticks);
 	}
 	TimeSpan TimeSpanValue::Negate() {
 		if (value.value == TimeSpanValue::MinValue.value)
-- 
2.43.0


From 3040a3d40b149a086043a62f7f2d517b1fcbadca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:02 +0000
Subject: [PATCH 69/82] fix: pad time span fractions on the left

---
 DotNetLibrary/src/TimeSpanValue.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/TimeSpanValue.cpp b/DotNetLibrary/src/TimeSpanValue.cpp
index 44e326d..df5b14f 100644
--- a/DotNetLibrary/src/TimeSpanValue.cpp
+++ b/DotNetLibrary/src/TimeSpanValue.cpp
@@ -190,8 +190,8 @@ namespace DotnetLibrary
 			Char frac[32];
 			Int32Value factValue(fractional);
 			Int32 fracLength = factValue.FormatString(frac, 32);
-			stringBuilder.Append(frac, fracLength);
 			stringBuilder.Append(L'0', 7 - fracLength);
+			stringBuilder.Append(frac, fracLength);
 		}
 		return (stringBuilder.FormatString(where, whereSize));
 	}
-- 
2.43.0


From 6d5edba10595e56862f3c3fa71dca2715ddb56ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:03 +0000
Subject: [PATCH 70/82] fix: parse time spans completely and reject malformed
 text

---
 DotNetLibrary/src/TimeSpanValue.cpp | 100 ++++++++++++++++------------
 1 file changed, 57 insertions(+), 43 deletions(-)

diff --git a/DotNetLibrary/src/TimeSpanValue.cpp b/DotNetLibrary/src/TimeSpanValue.cpp
index df5b14f..8398021 100644
--- a/DotNetLibrary/src/TimeSpanValue.cpp
+++ b/DotNetLibrary/src/TimeSpanValue.cpp
@@ -246,58 +246,72 @@ namespace DotnetLibrary
 		return TimeSpan(result);
 	}
 	Boolean TimeSpanValue::TryParse(String* s, TimeSpan& result) {
-		Int64 numbers[] = { 0, 0, 0, 0 };
-		Int32 amount = 0;
-		Int64 fractional = 0;
+		// [ws][-]{ d | [d.]hh:mm[:ss[.fffffff]] | d:hh:mm:ss[.fffffff] }[ws]
+		result = TimeSpan(0);
+		if (s == nullptr)
+			return false;
 		Char* chars = s->get_Buffer();
-		Int32 length = s->get_Length();
-		Int32 sign;
+		Char* end = chars + s->get_Length();
+		while (chars < end && CharValue::IsWhiteSpace(*chars))
+			++chars;
+		while (chars < end && CharValue::IsWhiteSpace(end[-1]))
+			--end;
 		Boolean negate = false;
-		if (*chars == L'-') {
+		if (chars < end && *chars == L'-') {
 			negate = true;
 			++chars;
-			--length;
 		}
-		while (length > 0) {
-			UInt64 number;
-			Int32 digits = 1;
-			if (!CharValue::IsDigit(*chars))
+		const Int64 maxDays = Int64Value::MaxValue / TicksPerDay;
+		Int64 numbers[] = { 0, 0, 0, 0 };
+		Int32 amount = 0;
+		Boolean dayPoint = false;
+		Boolean hasFraction = false;
+		while (true) {
+			if (amount == 4 || chars == end || *chars < L'0' || *chars > L'9')
+				return false;
+			Int64 number = 0;
+			for (; chars < end && *chars >= L'0' && *chars <= L'9'; ++chars) {
+				number = number * 10 + (*chars - L'0');
+				if (number > maxDays)
+					return false;
+			}
+			numbers[amount++] = number;
+			if (chars == end)
 				break;
-			if (length > 2 && chars[1] != L':' && chars[2] != L':' && chars[2] != L'.' && chars[1] != L'.')
+			if (*chars == L'.' && amount == 1)
+				dayPoint = true;
+			else if (*chars == L'.') {
+				hasFraction = true;
+				++chars;
 				break;
-			if (CharValue::IsDigit(chars[1]))
-				digits = 2;
-			UInt64Value::TryParseInternal(chars, digits, number, sign);
-			numbers[amount++] = (Int64) number;
-			chars += digits + 1;
-			length -= digits + 1;
-		}
-		Int64 frac = TicksPerSecond;
-		while (frac > 1 && length > 0 && CharValue::IsDigit(*chars)) {
-			frac /= 10;
-			fractional += (Int64) (*chars - L'0') * frac;
+			}
+			else if (*chars != L':')
+				return false;
 			++chars;
-			--length;
 		}
-		//for (; length > 0; --length) {
-		//	if (chars[length - 1] != L'0')
-		//		break;
-		//}
-		//if (length > 0)
-		//	if (!UInt64Value::TryParseInternal(chars, length, fractional, sign))
-		//		return(false);
-		//}
-		Int64 days = 0;
-		Int64 index = 0;
-		if (amount > 3 || amount == 1)
-			days += numbers[index++] * TicksPerDay;
-		Int64 hours = numbers[index++] * TicksPerHour;
-		Int64 minutes = numbers[index++] * TicksPerMinute;
-		Int64 seconds = numbers[index++] * TicksPerSecond;
-		Int64 ticks = fractional + days + hours + minutes + seconds;
-		if (negate)
-			ticks = -ticks;
-		result = ticks;
+		UInt64 ticks = 0;
+		if (hasFraction) {
+			if (chars == end)
+				return false;
+			for (Int64 scale = TicksPerSecond / 10; chars < end; ++chars, scale /= 10) {
+				if (scale == 0 || *chars < L'0' || *chars > L'9')
+					return false;
+				ticks += (UInt64) ((*chars - L'0') * scale);
+			}
+		}
+		Int32 index = 0;
+		Boolean hasDays = dayPoint || amount == 1 || amount == 4;
+		Int64 days = hasDays ? numbers[index++] : 0;
+		Int32 fields = amount - index;
+		Int64 hours = index < amount ? numbers[index++] : 0;
+		Int64 minutes = index < amount ? numbers[index++] : 0;
+		Int64 seconds = index < amount ? numbers[index++] : 0;
+		if (hours > 23 || minutes > 59 || seconds > 59 || (dayPoint && fields < 2) || (hasFraction && fields < 3))
+			return false;
+		ticks += (UInt64) (days * TicksPerDay) + (UInt64) (hours * TicksPerHour + minutes * TicksPerMinute + seconds * TicksPerSecond);
+		if (ticks > (UInt64) Int64Value::MaxValue + (negate ? 1 : 0))
+			return false;
+		result = TimeSpan((Int64) (negate ? 0 - ticks : ticks));
 		return true;
 	}
 	TimeSpan TimeSpanValue::op_Addition(const TimeSpan& ts1, const TimeSpan& ts2) {
-- 
2.43.0


From 33e23e6b2342a95ab61a91a4dfb9fa96a79e4813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:57 +0000
Subject: [PATCH 71/82] fix: pool requests that do not fit never wrap around

---
 PlatformSupport/PlatformSupport.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/PlatformSupport/PlatformSupport.cpp b/PlatformSupport/PlatformSupport.cpp
index 5552f83..30b856c 100644
--- a/PlatformSupport/PlatformSupport.cpp
+++ b/PlatformSupport/PlatformSupport.cpp
@@ -35,12 +35,16 @@ DLL_PLATFORMSUPPORT_EXPORTS void* CDECL my_operator_new_replacement(size_t size)
 	// Use malloc if not setup such as when unit tests run.
 	if (memory == nullptr) {
 		void* mem = malloc(size);
-		memset(mem, 0, size);
+		if (mem != nullptr)
+			memset(mem, 0, size);
 		return(mem);
 	}
+	// compare in full width, a huge request must not wrap around and appear to fit
+	if (size > memorySize - memoryUsed)
+		return(nullptr);
 	uint32_t required = (uint32_t)size;
 	required = Align(required, sizeof(double));
-	if (memoryUsed + required > memorySize)
+	if (required > memorySize - memoryUsed)
 		return(nullptr);
 	memoryUsed += required;
 	char* ret = currentMemory;
-- 
2.43.0


From c2f69359328ca0909da3c065e84ba011749677d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:21 +0000
Subject: [PATCH 72/82] fix: an array wrapping platform memory does not free it

---
 DotNetLibrary/include/Array.h | 1 +
 DotNetLibrary/src/Array.cpp   | 6 ++++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/include/Array.h b/DotNetLibrary/include/Array.h
index 8abf5ec..950005a 100644
--- a/DotNetLibrary/include/Array.h
+++ b/DotNetLibrary/include/Array.h
@@ -34,6 +34,7 @@ namespace DotnetLibrary
 		int32_t dimensionCount;			// amount of dimensions
 		int32_t totalElementCount;		// total elements in the array
 		char* data;						// point to data storage for array
+		Boolean ownsData;				// false when data belongs to the platform
 		/*!
 		 * Compute index into 1d array from 3d indexes
 		 * @param index1 index to 1st dimension
diff --git a/DotNetLibrary/src/Array.cpp b/DotNetLibrary/src/Array.cpp
index d4626fe..70caf0f 100644
--- a/DotNetLibrary/src/Array.cpp
+++ b/DotNetLibrary/src/Array.cpp
@@ -43,10 +43,12 @@ namespace DotnetLibrary
 	Array::Array(void* dataMemory, DataType dataType, Int32 dimension1Size, Int32 dimension2Size, Int32 dimension3Size) {
 		InitializeData(dataType, dimension1Size, dimension2Size, dimension3Size);
 		data = (char*) dataMemory;
+		ownsData = false;
 	}
 	Array::Array(DataType dataType, Int32 dimension1Size, Int32 dimension2Size, Int32 dimension3Size) {
 		InitializeData(dataType, dimension1Size, dimension2Size, dimension3Size);
 		data = new char[totalElementCount * DataTypeSize[dataType]];
+		ownsData = true;
 	}
 	void Array::InitializeData(DataType dataType, Int32 dimension1Size, Int32 dimension2Size, Int32 dimension3Size) {
 		if (dimension1Size < 0 || dimension2Size < -1 || dimension3Size < -1)
@@ -76,8 +78,8 @@ namespace DotnetLibrary
 		}
 	}
 	Array::~Array() {
-		if (data != nullptr)
-			delete data;
+		if (ownsData)
+			delete[] data;
 		data = nullptr;
 	}
 	void* Array::Address(Int32 index1, Int32 index2, Int32 index3) {
-- 
2.43.0


From b18cc53dcd31d660c8f755302d8e1392f09d78ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:31 +0000
Subject: [PATCH 73/82] fix: base exception is the root cause and every
 exception has a message

---
 DotNetLibrary/include/Exception.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/include/Exception.h b/DotNetLibrary/include/Exception.h
index 2cb8900..c0e033e 100644
--- a/DotNetLibrary/include/Exception.h
+++ b/DotNetLibrary/include/Exception.h
@@ -34,7 +34,7 @@ namespace DotnetLibrary
 		 * Null Constructor
 		 */
 		Exception() {
-			message = nullptr;
+			message = new String(L"Exception of type 'System.Exception' was thrown.");
 			innerException = nullptr;
 		}
 		/*!
@@ -73,7 +73,10 @@ namespace DotnetLibrary
 		 * @return base exception
 		 */
 		Exception* GetBaseException() {
-			return (innerException);
+			Exception* baseException = this;
+			while (baseException->innerException != nullptr)
+				baseException = baseException->innerException;
+			return (baseException);
 		}
 		/*!
 		 * Get raw type of this boxed object
-- 
2.43.0


From e0f14b04e29aabb18d2433382f662addc6fcf272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:39 +0000
Subject: [PATCH 74/82] fix: sending a null message prints an empty line

---
 DotNetLibrarySupport/DotNetLibrarySupport.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DotNetLibrarySupport/DotNetLibrarySupport.cpp b/DotNetLibrarySupport/DotNetLibrarySupport.cpp
index edb07ab..85ba472 100644
--- a/DotNetLibrarySupport/DotNetLibrarySupport.cpp
+++ b/DotNetLibrarySupport/DotNetLibrarySupport.cpp
@@ -26,7 +26,8 @@
  */
 void DotnetLibrarySupport::TranslatorSupport::Send(String* message)
 {
-	printf("%ls\n", message->get_Buffer());
+	// a null message prints an empty line, as it does in .Net
+	printf("%ls\n", message != nullptr ? message->get_Buffer() : L"");
 }
 
 /*!
-- 
2.43.0


From fddd7c70a60a0deacae7a6c560f2f58114a18c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:07 +0000
Subject: [PATCH 75/82] fix: Array.Copy and CopyTo raise ArgumentOutOfRange for
 negative positions and Argument for ranges that do not fit

---
 DotNetLibrary/src/Array.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/Array.cpp b/DotNetLibrary/src/Array.cpp
index 70caf0f..fc261ab 100644
--- a/DotNetLibrary/src/Array.cpp
+++ b/DotNetLibrary/src/Array.cpp
@@ -106,7 +106,7 @@ namespace DotnetLibrary
 		if (length < 0)
 			throw new ArgumentOutOfRangeException();
 		if (sourceIndex < 0 || destinationIndex < 0)
-			throw new ArgumentException();
+			throw new ArgumentOutOfRangeException();
 		if (sourceIndex > sourceArray->totalElementCount - length || destinationIndex > destinationArray->totalElementCount - length)
 			throw new ArgumentException();
 		if (sourceArray->get_Rank() != destinationArray->get_Rank())
@@ -122,7 +122,6 @@ namespace DotnetLibrary
 		if (array == nullptr)
 			throw new ArgumentNullException;
 		array->EnsureSingleDimension();
-		VerifyIndexWithinRangeOfArray(array, index, get_Length());
 		Copy(this, 0, array, index, dimension1Size);
 	}
 	Int32 Array::ComputeIndex(Int32 index1, Int32 index2, Int32 index3) {
-- 
2.43.0


From 3b86e7d0d72e2ea400c40f959aa8fd582f9c126d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:08 +0000
Subject: [PATCH 76/82] fix: String raises ArgumentOutOfRange for bad windows
 and Argument for arrays of another element type

---
 DotNetLibrary/src/StringDotNet.cpp | 40 +++++++++++++++---------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index acb2e7d..f46eb57 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -185,7 +185,7 @@ namespace DotnetLibrary
 			throw new ArgumentNullException();
 		values->EnsureSingleDimension();
 		if (values->GetElementType() != ObjectType && values->GetElementType() != StringType)
-			throw new ArgumentNullException();
+			throw new ArgumentException();
 		StringBuilder sb;
 		for (int i = 0; i < values->get_Length(); ++i)
 			sb.Append(*(Object**) values->Address(i));
@@ -227,15 +227,15 @@ namespace DotnetLibrary
 			throw new ArgumentNullException();
 		destination->EnsureSingleDimension();
 		if (destination->GetElementType() != CharType)
-			throw new ArgumentNullException();
+			throw new ArgumentException();
 		if (count < 0)
-			throw new ArgumentNullException();
+			throw new ArgumentOutOfRangeException();
 		if (sourceIndex < 0)
-			throw new ArgumentNullException();
+			throw new ArgumentOutOfRangeException();
 		if (count > length - sourceIndex)
-			throw new ArgumentNullException();
+			throw new ArgumentOutOfRangeException();
 		if (destinationIndex > destination->get_Length() - count || destinationIndex < 0)
-			throw new ArgumentNullException();
+			throw new ArgumentOutOfRangeException();
 		if (count == 0)
 			return;
 		Char* source = Address(sourceIndex);
@@ -310,9 +310,9 @@ namespace DotnetLibrary
 	}
 	Int32 String::IndexOf(const Char value, const Int32 startIndex, const Int32 count) {
 		if (startIndex < 0 || count < 0)
-			throw new ArgumentNullException();
+			throw new ArgumentOutOfRangeException();
 		if (count > length - startIndex)
-			throw new ArgumentNullException();
+			throw new ArgumentOutOfRangeException();
 		Int32 endIndex = startIndex + count;
 		for (Int32 index = startIndex; index < endIndex; ++index) {
 			if (get_Chars(index) == value)
@@ -334,9 +334,9 @@ namespace DotnetLibrary
 		if (value == nullptr)
 			throw new ArgumentNullException();
 		if (startIndex < 0 || count < 0)
-			throw new ArgumentNullException();
+			throw new ArgumentOutOfRangeException();
 		if (count > length - startIndex)
-			throw new ArgumentNullException();
+			throw new ArgumentOutOfRangeException();
 		Int32 endIndex = startIndex + count - value->length;
 		for (Int32 index = startIndex; index <= endIndex; ++index) {
 			if (memcmp(characterData + index, value->characterData, value->length * sizeof(Char)) == 0)
@@ -358,12 +358,12 @@ namespace DotnetLibrary
 		if (arr == nullptr)
 			throw new ArgumentNullException();
 		if (startIndex < 0 || count < 0)
-			throw new ArgumentNullException();
+			throw new ArgumentOutOfRangeException();
 		if (count > length - startIndex)
-			throw new ArgumentNullException();
+			throw new ArgumentOutOfRangeException();
 		arr->EnsureSingleDimension();
 		if (arr->GetElementType() != CharType)
-			throw new ArgumentNullException();
+			throw new ArgumentException();
 		Int32 endIndex = startIndex + count;
 		for (Int32 index = startIndex; index < endIndex; ++index) {
 			for (Int32 arrayIndex = 0; arrayIndex < arr->get_Length(); ++arrayIndex) {
@@ -402,13 +402,13 @@ namespace DotnetLibrary
 		}
 		values->EnsureSingleDimension();
 		if (values->GetElementType() != ObjectType && values->GetElementType() != StringType)
-			throw new ArgumentNullException();
+			throw new ArgumentException();
 		if (startIndex < 0 || startIndex > values->get_Length())
-			throw new ArgumentNullException();
+			throw new ArgumentOutOfRangeException();
 		if (count < 0)
 			count = values->get_Length() - startIndex;
 		if (count > values->get_Length() - startIndex)
-			throw new ArgumentNullException();
+			throw new ArgumentOutOfRangeException();
 		Int32 endIndex = count + startIndex;
 		StringBuilder sb;
 		Boolean isFirst = true;
@@ -426,13 +426,13 @@ namespace DotnetLibrary
 		}
 		values->EnsureSingleDimension();
 		if (values->GetElementType() != ObjectType && values->GetElementType() != StringType)
-			throw new ArgumentNullException();
+			throw new ArgumentException();
 		if (startIndex < 0 || startIndex > values->get_Length())
-			throw new ArgumentNullException();
+			throw new ArgumentOutOfRangeException();
 		if (count < 0)
 			count = values->get_Length() - startIndex;
 		if (count > values->get_Length() - startIndex)
-			throw new ArgumentNullException();
+			throw new ArgumentOutOfRangeException();
 		Int32 endIndex = count + startIndex;
 		StringBuilder sb;
 		Boolean isFirst = true;
@@ -489,7 +489,7 @@ namespace DotnetLibrary
 			count = startIndex + 1;
 		arr->EnsureSingleDimension();
 		if (arr->GetElementType() != CharType)
-			throw new ArgumentNullException();
+			throw new ArgumentException();
 		if ((startIndex >= length && startIndex > 0) || count > startIndex + 1)
 			throw new ArgumentOutOfRangeException();
 		if (startIndex >= length)
-- 
2.43.0


From 1e50573e0cffb82354aadd1bd60bfe582a1547cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:26 +0000
Subject: [PATCH 77/82] fix: StringBuilder.Replace raises ArgumentNull for a
 null search text and Argument for an empty one

---
 DotNetLibrary/src/StringBuilder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index 3d9706d..0ac5ca1 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -512,10 +512,10 @@ namespace DotnetLibrary
 			throw new ArgumentOutOfRangeException();
 		}
 		if (search == nullptr) {
-			throw new ArgumentOutOfRangeException();
+			throw new ArgumentNullException();
 		}
 		if (search->get_Length() == 0) {
-			throw new ArgumentOutOfRangeException();
+			throw new ArgumentException();
 		}
 		if (replace == nullptr) {
 			replace = String::Empty;
-- 
2.43.0


From cf252c65dcdf5ff1753db6dec79196650044c4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:27 +0000
Subject: [PATCH 78/82] fix: StringBuilder.Insert and ToString raise
 ArgumentOutOfRange for a bad position or window

---
 DotNetLibrary/src/StringBuilder.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index 0ac5ca1..9dd5e25 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -184,9 +184,9 @@ namespace DotnetLibrary
 	}
 	String* StringBuilder::ToString(Int32 startIndex, Int32 length) {
 		if (startIndex < 0 || startIndex > currentLength)
-			throw new IndexOutOfRangeException();
+			throw new ArgumentOutOfRangeException();
 		if (length < 0 || length > currentLength - startIndex)
-			throw new IndexOutOfRangeException();
+			throw new ArgumentOutOfRangeException();
 		return (String::FromChars(&chunkChars[startIndex], length));
 	}
 	Int32 StringBuilder::FormatString(Char* where, const Int32 whereSize) {
@@ -200,7 +200,7 @@ namespace DotnetLibrary
 			where = currentLength;
 		}
 		if (where < 0 || where > currentLength) {
-			throw new IndexOutOfRangeException();
+			throw new ArgumentOutOfRangeException();
 		}
 		if (charCount > 0 && values >= chunkChars && values < chunkChars + currentLength) {
 			String* copy = String::FromChars(values, charCount);
@@ -342,7 +342,7 @@ namespace DotnetLibrary
 	}
 	void StringBuilder::EnsureInsertIndex(Int32 index) {
 		if (index < 0 || index > currentLength) {
-			throw new IndexOutOfRangeException();
+			throw new ArgumentOutOfRangeException();
 		}
 	}
 	Int32 StringBuilder::EnsureCapacity(Int32 capacity) {
-- 
2.43.0


From 32b55ad2dd61d4649a6bd3b445b4474d9a574778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:37 +0000
Subject: [PATCH 79/82] fix: StringBuilder raises ArgumentOutOfRange for a
 slice that starts past the end of a character array

---
 DotNetLibrary/src/StringBuilder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index 9dd5e25..875d6af 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -230,7 +230,7 @@ namespace DotnetLibrary
 		if (charCount == 0) {
 			return (this);
 		}
-		if (charCount > values->get_Length() - startIndex) {
+		if (charCount < 0 || charCount > values->get_Length() - startIndex) {
 			throw new ArgumentOutOfRangeException();
 		}
 		if (values->GetElementType() != CharType) {
@@ -404,7 +404,7 @@ namespace DotnetLibrary
 		if (charCount == 0) {
 			return (this);
 		}
-		if (charCount > values->get_Length() - startIndex) {
+		if (charCount < 0 || charCount > values->get_Length() - startIndex) {
 			throw new ArgumentOutOfRangeException();
 		}
 		if (values->GetElementType() != CharType) {
-- 
2.43.0


From 003dd6346d74e25e09f0f998fe34ca71502b3c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:47 +0000
Subject: [PATCH 80/82] fix: the Char tests raise ArgumentOutOfRange for a
 negative position

---
 DotNetLibrary/src/CharValue.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/DotNetLibrary/src/CharValue.cpp b/DotNetLibrary/src/CharValue.cpp
index ec1aea6..f1f73bf 100644
--- a/DotNetLibrary/src/CharValue.cpp
+++ b/DotNetLibrary/src/CharValue.cpp
@@ -86,7 +86,7 @@ namespace DotnetLibrary
 	Double CharValue::GetNumericValue(String* v, Int32 index) {
 		if (v == nullptr)
 			throw new ArgumentNullException();
-		if (index >= v->get_Length())
+		if (index < 0 || index >= v->get_Length())
 			throw new ArgumentOutOfRangeException();
 		return (GetNumericValue(v->get_Chars(index)));
 	}
@@ -101,7 +101,7 @@ namespace DotnetLibrary
 	Boolean CharValue::IsControl(String* v, Int32 index) {
 		if (v == nullptr)
 			throw new ArgumentNullException();
-		if (index >= v->get_Length())
+		if (index < 0 || index >= v->get_Length())
 			throw new ArgumentOutOfRangeException();
 		return (IsControl(v->get_Chars(index)));
 	}
@@ -111,7 +111,7 @@ namespace DotnetLibrary
 	Boolean CharValue::IsDigit(String* v, Int32 index) {
 		if (v == nullptr)
 			throw new ArgumentNullException();
-		if (index >= v->get_Length())
+		if (index < 0 || index >= v->get_Length())
 			throw new ArgumentOutOfRangeException();
 		return (IsDigit(v->get_Chars(index)));
 	}
@@ -121,7 +121,7 @@ namespace DotnetLibrary
 	Boolean CharValue::IsLetter(String* v, Int32 index) {
 		if (v == nullptr)
 			throw new ArgumentNullException();
-		if (index >= v->get_Length())
+		if (index < 0 || index >= v->get_Length())
 			throw new ArgumentOutOfRangeException();
 		return (IsLetter(v->get_Chars(index)));
 	}
@@ -131,7 +131,7 @@ namespace DotnetLibrary
 	Boolean CharValue::IsLetterOrDigit(String* v, Int32 index) {
 		if (v == nullptr)
 			throw new ArgumentNullException();
-		if (index >= v->get_Length())
+		if (index < 0 || index >= v->get_Length())
 			throw new ArgumentOutOfRangeException();
 		return (IsLetterOrDigit(v->get_Chars(index)));
 	}
@@ -141,7 +141,7 @@ namespace DotnetLibrary
 	Boolean CharValue::IsLower(String* v, Int32 index) {
 		if (v == nullptr)
 			throw new ArgumentNullException();
-		if (index >= v->get_Length())
+		if (index < 0 || index >= v->get_Length())
 			throw new ArgumentOutOfRangeException();
 		return (IsLower(v->get_Chars(index)));
 	}
@@ -158,7 +158,7 @@ namespace DotnetLibrary
 	Boolean CharValue::IsPunctuation(String* v, Int32 index) {
 		if (v == nullptr)
 			throw new ArgumentNullException();
-		if (index >= v->get_Length())
+		if (index < 0 || index >= v->get_Length())
 			throw new ArgumentOutOfRangeException();
 		return (IsPunctuation(v->get_Chars(index)));
 	}
@@ -168,7 +168,7 @@ namespace DotnetLibrary
 	Boolean CharValue::IsSeparator(String* v, Int32 index) {
 		if (v == nullptr)
 			throw new ArgumentNullException();
-		if (index >= v->get_Length())
+		if (index < 0 || index >= v->get_Length())
 			throw new ArgumentOutOfRangeException();
 		return (IsSeparator(v->get_Chars(index)));
 	}
@@ -178,7 +178,7 @@ namespace DotnetLibrary
 	Boolean CharValue::IsUpper(String* v, Int32 index) {
 		if (v == nullptr)
 			throw new ArgumentNullException();
-		if (index >= v->get_Length())
+		if (index < 0 || index >= v->get_Length())
 			throw new ArgumentOutOfRangeException();
 		return (IsUpper(v->get_Chars(index)));
 	}
@@ -188,7 +188,7 @@ namespace DotnetLibrary
 	Boolean CharValue::IsWhiteSpace(String* v, Int32 index) {
 		if (v == nullptr)
 			throw new ArgumentNullException();
-		if (index >= v->get_Length())
+		if (index < 0 || index >= v->get_Length())
 			throw new ArgumentOutOfRangeException();
 		return (IsWhiteSpace(v->get_Chars(index)));
 	}
-- 
2.43.0


From 792c350299ba0ec65f2f0baff59525faededd84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:20 +0000
Subject: [PATCH 81/82] fix: a sent message is printed whole when it holds NUL
 characters

---
 DotNetLibrarySupport/DotNetLibrarySupport.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/DotNetLibrarySupport/DotNetLibrarySupport.cpp b/DotNetLibrarySupport/DotNetLibrarySupport.cpp
index 85ba472..e99d82f 100644
--- a/DotNetLibrarySupport/DotNetLibrarySupport.cpp
+++ b/DotNetLibrarySupport/DotNetLibrarySupport.cpp
@@ -27,7 +27,17 @@
 void DotnetLibrarySupport::TranslatorSupport::Send(String* message)
 {
 	// a null message prints an empty line, as it does in .Net
-	printf("%ls\n", message != nullptr ? message->get_Buffer() : L"");
+	const Char* text = message != nullptr ? message->get_Buffer() : L"";
+	Int32 length = message != nullptr ? message->get_Length() : 0;
+	printf("%ls", text);
+	// a message can hold NUL characters, where printing of a string stops
+	for (Int32 i = 0; i < length; i++) {
+		if (text[i] == 0) {
+			putchar(0);
+			printf("%ls", text + i + 1);
+		}
+	}
+	putchar('\n');
 }
 
 /*!
-- 
2.43.0


From 53bd1f11105a175a19cec4411b253a8ae8ec4107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:58 +0000
Subject: [PATCH 82/82] fix: hexadecimal text of a range outside an empty array
 raises

---
 DotNetLibrary/src/BitConverter.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/DotNetLibrary/src/BitConverter.cpp b/DotNetLibrary/src/BitConverter.cpp
index 63e87bd..c301180 100644
--- a/DotNetLibrary/src/BitConverter.cpp
+++ b/DotNetLibrary/src/BitConverter.cpp
@@ -138,12 +138,9 @@ namespace DotnetLibrary
 			throw new ArgumentNullException();
 		if (length == -1)
 			length = value->get_Length() - startIndex;
-		if (startIndex < 0 || startIndex >= value->get_Length()) {
-			// special (but valid) case (e.g. new byte [0])
-			if ((startIndex == 0) && (value->get_Length() == 0))
-				return String::Empty;
+		// position 0 is valid for an empty array (e.g. new byte [0])
+		if (startIndex < 0 || (startIndex >= value->get_Length() && startIndex > 0))
 			throw new ArgumentOutOfRangeException();
-		}
 		if (length < 0)
 			throw new ArgumentOutOfRangeException();
 		// note: re-ordered to avoid possible integer overflow
-- 
2.43.0

