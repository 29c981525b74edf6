From b43356e55c502f01be8343080451fd8d0919458d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:58 +0000
Subject: [PATCH 01/62] fix: interval requests no longer require operator> from
 the key type

---
 Source/Vault.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Vault.hpp b/Source/Vault.hpp
index 5dbedd0..4d7c4a4 100644
--- a/Source/Vault.hpp
+++ b/Source/Vault.hpp
@@ -223,7 +223,7 @@ namespace mvlt
                 break;
             
             case VaultRequestType::Interval:
-                if (beginKeyValue > endKeyValue || (beginKeyValue == endKeyValue && (isIncludeBeginKeyValue == false || isIncludeEndKeyValue == false)))
+                if (endKeyValue < beginKeyValue || (beginKeyValue == endKeyValue && (isIncludeBeginKeyValue == false || isIncludeEndKeyValue == false)))
                 {
                     startIt = TtoVaultRecordMap->End();
                     endIt = TtoVaultRecordMap->End();
-- 
2.43.0


From 9248085c50f94b1d93be562512ba1c79788a91f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:32 +0000
Subject: [PATCH 02/62] fix: updating a record erases only that record's index
 entries

---
 Source/Vault.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Source/Vault.hpp b/Source/Vault.hpp
index 4d7c4a4..a51dba1 100644
--- a/Source/Vault.hpp
+++ b/Source/Vault.hpp
@@ -78,7 +78,7 @@ namespace mvlt
             // Find required data record
             if ((*pairIt).second == dataRecord)
             {
-                TtoVaultRecordHashMap->Erase((*pairIt).first);
+                TtoVaultRecordHashMap->Erase(pairIt);
                 break;
             }
         }
@@ -99,7 +99,7 @@ namespace mvlt
             // Find required data record
             if ((*pairIt).second == dataRecord)
             {
-                TtoVaultRecordMap->Erase((*pairIt).first);
+                TtoVaultRecordMap->Erase(pairIt);
                 break;
             }
         }
-- 
2.43.0


From ae83890d46df463eddd1aea127b45cb8776753a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:45 +0000
Subject: [PATCH 03/62] fix: erasing a record erases only that record's ordered
 index entry

---
 Source/Vault.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Vault.hpp b/Source/Vault.hpp
index a51dba1..b1f246d 100644
--- a/Source/Vault.hpp
+++ b/Source/Vault.hpp
@@ -493,7 +493,7 @@ namespace mvlt
                 {
                     if ((*pairIt).second == record)
                     {
-                        TtoVaultRecordMap->Erase((*pairIt).first);
+                        TtoVaultRecordMap->Erase(pairIt);
                         break;
                     }
                 }
-- 
2.43.0


From f827092128b75f45827f43f0cdbfe77c9e320922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:59 +0000
Subject: [PATCH 04/62] fix: a unique key value can be updated to any value no
 other record holds

---
 Source/Vault.hpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/Source/Vault.hpp b/Source/Vault.hpp
index b1f246d..4dc122e 100644
--- a/Source/Vault.hpp
+++ b/Source/Vault.hpp
@@ -63,13 +63,17 @@ namespace mvlt
         // Remove oldData from TtoVaultRecordHashMap from VaultHashMapStructure
         auto FirstAndLastIteratorsWithKeyOnHashMap = TtoVaultRecordHashMap->EqualRange(oldData);
 
-        // Check if it is unique key and try to set duplicate data
-        if (!TtoVaultRecordHashMap->IsMultiContainer() && FirstAndLastIteratorsWithKeyOnHashMap.first != TtoVaultRecordHashMap->End())
+        // Check if it is unique key and try to set data that belongs to another record
+        if (!TtoVaultRecordHashMap->IsMultiContainer())
         {
-            res.IsOperationSuccess = false;
-            res.ResultCode = VaultOperationResultCode::UniqueKeyValueAlredyInSet;
+            auto sameDataIt = TtoVaultRecordHashMap->Find(data);
+            if (sameDataIt != TtoVaultRecordHashMap->End() && (*sameDataIt).second != dataRecord)
+            {
+                res.IsOperationSuccess = false;
+                res.ResultCode = VaultOperationResultCode::UniqueKeyValueAlredyInSet;
 
-            return res;
+                return res;
+            }
         }
 
         // Iterate over all data records with oldData key
-- 
2.43.0


From 04653a545b09063954b5ede808e0439e77bbc0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:26 +0000
Subject: [PATCH 05/62] fix: records rejected by a predicate do not use up a
 request's amount

---
 Source/Vault.hpp | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/Source/Vault.hpp b/Source/Vault.hpp
index 4dc122e..3c81035 100644
--- a/Source/Vault.hpp
+++ b/Source/Vault.hpp
@@ -179,15 +179,12 @@ namespace mvlt
                     // Check added records count
                     if (counter >= amountOfRecords) break;
 
-                    // Check if it is not default predicate
-                    if (&requestPredicat != &DefaultRequestPredicat)
-                    {
-                        if (requestPredicat(VaultRecordRef((*equalRangeIt).second, const_cast<Vault*>(this))))
-                            vaultRecords.emplace((*equalRangeIt).second);
-                    }
-                    else
-                        vaultRecords.emplace((*equalRangeIt).second);
-                    
+                    // Skip records rejected by not default predicate, they do not count
+                    if (&requestPredicat != &DefaultRequestPredicat &&
+                        !requestPredicat(VaultRecordRef((*equalRangeIt).second, const_cast<Vault*>(this))))
+                        continue;
+
+                    vaultRecords.emplace((*equalRangeIt).second);
                     ++counter;
                 }
             }
@@ -252,15 +249,12 @@ namespace mvlt
             {
                 if (counter >= amountOfRecords) break;
 
-                // Check if it is not default predicate
-                if (&requestPredicat != &DefaultRequestPredicat)
-                {
-                    if (requestPredicat(VaultRecordRef((*TtoVaultRecordMapIt).second, const_cast<Vault*>(this))))
-                        vaultRecords.emplace((*TtoVaultRecordMapIt).second);
-                }
-                else
-                    vaultRecords.emplace((*TtoVaultRecordMapIt).second);
+                // Skip records rejected by not default predicate, they do not count
+                if (&requestPredicat != &DefaultRequestPredicat &&
+                    !requestPredicat(VaultRecordRef((*TtoVaultRecordMapIt).second, const_cast<Vault*>(this))))
+                    continue;
 
+                vaultRecords.emplace((*TtoVaultRecordMapIt).second);
                 ++counter;
             }
         }
-- 
2.43.0


From 8d78f7267885494a11b374f56aa303f225d50a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:35 +0000
Subject: [PATCH 06/62] fix: GetRecords and EraseRecords handle no record when
 the amount is 0

---
 Source/Vault.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Source/Vault.hpp b/Source/Vault.hpp
index 3c81035..57ff1eb 100644
--- a/Source/Vault.hpp
+++ b/Source/Vault.hpp
@@ -771,9 +771,9 @@ namespace mvlt
             std::size_t counter = 0;
             for (auto equalRangeIt = equalRange.first; equalRangeIt != equalRange.second; ++equalRangeIt)
             {
+                if (counter >= amountOfRecords) break;
                 ++counter;
                 recordsRefs.emplace_back(VaultRecordRef((*equalRangeIt).second, const_cast<Vault*>(this)));
-                if (counter >= amountOfRecords) break;
             }
 
             res.IsOperationSuccess = true;
@@ -1051,6 +1051,8 @@ namespace mvlt
             std::size_t counter = 0;
             for (auto equalRangeIt = equalRange.first; equalRangeIt != equalRange.second;)
             {
+                if (counter >= amountOfRecords) break;
+
                 // Save next iterator
                 auto nextIt = equalRangeIt;
                 ++nextIt;
@@ -1070,9 +1072,7 @@ namespace mvlt
                     tmpRec->RemoveFromDependentSets();
                     tmpRec->Invalidate();
                 }
-                
-                if (counter >= amountOfRecords) break;
-                
+
                 equalRangeIt = nextIt;
             }
         }
-- 
2.43.0


From 7954bc829ccc79434e676f3963c2c0f079ed6b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:14 +0000
Subject: [PATCH 07/62] fix: And of a greater and a less-or-equal request uses
 the interval of both

---
 Source/VaultRequest.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/VaultRequest.hpp b/Source/VaultRequest.hpp
index d395539..d2bb323 100644
--- a/Source/VaultRequest.hpp
+++ b/Source/VaultRequest.hpp
@@ -75,7 +75,7 @@ namespace mvlt
                 // Handle interval situation
                 if (request1.Key == request2.Key && 
                     (request1.RequestType == VaultRequestType::Greater || request1.RequestType == VaultRequestType::GreaterOrEqual) &&
-                    (request2.RequestType == VaultRequestType::Less || request1.RequestType == VaultRequestType::LessOrEqual))
+                    (request2.RequestType == VaultRequestType::Less || request2.RequestType == VaultRequestType::LessOrEqual))
                 {
                     request1.DataRequestFunc(request1.Key, vlt, vaultRecordSet, request1.DataPtr, request2.DataPtr, 
                         (request1.RequestType == VaultRequestType::GreaterOrEqual),
-- 
2.43.0


From 732ce7a05982670d68bd09de90b297d96e1e8dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:27 +0000
Subject: [PATCH 08/62] fix: And does not read one request's data as the type
 of the other

---
 Source/VaultRequest.h   | 4 ++++
 Source/VaultRequest.hpp | 3 ++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/Source/VaultRequest.h b/Source/VaultRequest.h
index 214e54d..e13f97b 100644
--- a/Source/VaultRequest.h
+++ b/Source/VaultRequest.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <functional>
+#include <typeindex>
 
 #include "VaultClasses.h"
 
@@ -33,6 +34,9 @@ namespace mvlt
         /// Pointer to Data saved inside Request
         void* DataPtr = nullptr;
 
+        /// Type of the data saved inside Request
+        std::type_index DataType = typeid(void);
+
         /// Variable to store predicat function
         std::function<bool(const VaultRecordRef& ref)> RequestPredicat;
 
diff --git a/Source/VaultRequest.hpp b/Source/VaultRequest.hpp
index d2bb323..7a846df 100644
--- a/Source/VaultRequest.hpp
+++ b/Source/VaultRequest.hpp
@@ -19,6 +19,7 @@ namespace mvlt
             This works with the following classes: Less, LessOrEqual, Equal, GreaterOrEqual, Greater.");
 
         DataPtr = static_cast<void*>(new T(keyValue));
+        DataType = typeid(T);
 
         // Set Request func
         DataRequestFunc = [](const std::string& key, Vault* vlt, std::unordered_set<VaultRecord*>& vaultRecordSet, void* beginValue, void* endValue,
@@ -73,7 +74,7 @@ namespace mvlt
             LogicalRequestFunction = [&](Vault* vlt, std::unordered_set<VaultRecord*>& vaultRecordSet)
             {
                 // Handle interval situation
-                if (request1.Key == request2.Key && 
+                if (request1.Key == request2.Key && request1.DataType == request2.DataType &&
                     (request1.RequestType == VaultRequestType::Greater || request1.RequestType == VaultRequestType::GreaterOrEqual) &&
                     (request2.RequestType == VaultRequestType::Less || request2.RequestType == VaultRequestType::LessOrEqual))
                 {
-- 
2.43.0


From 3a9096a1b61878cdb34092df871e33f6bc43ef7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:40 +0000
Subject: [PATCH 09/62] fix: stored, copied and moved requests own their data
 and operands

---
 Source/VaultRequest.h   | 10 ++++------
 Source/VaultRequest.hpp | 18 +++++-------------
 2 files changed, 9 insertions(+), 19 deletions(-)

diff --git a/Source/VaultRequest.h b/Source/VaultRequest.h
index e13f97b..2a2e0fb 100644
--- a/Source/VaultRequest.h
+++ b/Source/VaultRequest.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <functional>
+#include <memory>
 #include <typeindex>
 
 #include "VaultClasses.h"
@@ -20,19 +21,16 @@ namespace mvlt
         VaultRequestType RequestType = Type;
 
         /// Function for requesting data
-        void (*DataRequestFunc)(const std::string&, Vault*, std::unordered_set<VaultRecord*>&, void*, void*, bool, bool, const std::function<bool(const VaultRecordRef& ref)>&);
+        void (*DataRequestFunc)(const std::string&, Vault*, std::unordered_set<VaultRecord*>&, void*, void*, bool, bool, const std::function<bool(const VaultRecordRef& ref)>&) = nullptr;
 
         /// A variable for storing a logical request function
         std::function<void(Vault* vlt, std::unordered_set<VaultRecord*>& setWithRecords)> LogicalRequestFunction;
 
-        /// A pointer to a function that delete data
-        void (*DeleteFunc)(void*) = nullptr;
-
         /// Request key
         std::string Key;
 
-        /// Pointer to Data saved inside Request
-        void* DataPtr = nullptr;
+        /// Pointer to Data saved inside Request. It is shared by the copies of the request
+        std::shared_ptr<void> DataPtr;
 
         /// Type of the data saved inside Request
         std::type_index DataType = typeid(void);
diff --git a/Source/VaultRequest.hpp b/Source/VaultRequest.hpp
index 7a846df..657bc46 100644
--- a/Source/VaultRequest.hpp
+++ b/Source/VaultRequest.hpp
@@ -18,7 +18,7 @@ namespace mvlt
             Less<std::string>(\"Key\", \"Value\") or Greater(\"Key\", std::string(\"Value\")). \n\
             This works with the following classes: Less, LessOrEqual, Equal, GreaterOrEqual, Greater.");
 
-        DataPtr = static_cast<void*>(new T(keyValue));
+        DataPtr = std::make_shared<T>(keyValue);
         DataType = typeid(T);
 
         // Set Request func
@@ -35,11 +35,6 @@ namespace mvlt
             // Throw error
             if (!res.IsOperationSuccess) throw VaultOperationResult(res);
         };
-
-        DeleteFunc = [](void* ptrToDelete)
-        {
-            delete static_cast<T*>(ptrToDelete);
-        };
     }
 
     template <VaultRequestType Type>
@@ -53,7 +48,7 @@ namespace mvlt
         {
         case VaultRequestType::Or:
             // Set complex request func
-            LogicalRequestFunction = [&](Vault* vlt, std::unordered_set<VaultRecord*>& vaultRecordSet)
+            LogicalRequestFunction = [request1, request2](Vault* vlt, std::unordered_set<VaultRecord*>& vaultRecordSet)
             {
                 std::unordered_set<VaultRecord*> req1Result, req2Result;
 
@@ -71,14 +66,14 @@ namespace mvlt
         
         case VaultRequestType::And:
             // Set complex request func
-            LogicalRequestFunction = [&](Vault* vlt, std::unordered_set<VaultRecord*>& vaultRecordSet)
+            LogicalRequestFunction = [request1, request2](Vault* vlt, std::unordered_set<VaultRecord*>& vaultRecordSet)
             {
                 // Handle interval situation
                 if (request1.Key == request2.Key && request1.DataType == request2.DataType &&
                     (request1.RequestType == VaultRequestType::Greater || request1.RequestType == VaultRequestType::GreaterOrEqual) &&
                     (request2.RequestType == VaultRequestType::Less || request2.RequestType == VaultRequestType::LessOrEqual))
                 {
-                    request1.DataRequestFunc(request1.Key, vlt, vaultRecordSet, request1.DataPtr, request2.DataPtr, 
+                    request1.DataRequestFunc(request1.Key, vlt, vaultRecordSet, request1.DataPtr.get(), request2.DataPtr.get(), 
                         (request1.RequestType == VaultRequestType::GreaterOrEqual),
                         (request2.RequestType == VaultRequestType::LessOrEqual), [&](const VaultRecordRef& ref) 
                             {
@@ -122,7 +117,7 @@ namespace mvlt
         case VaultRequestType::Equal:
         case VaultRequestType::GreaterOrEqual:
         case VaultRequestType::Greater:
-            DataRequestFunc(Key, vlt, vaultRecords, DataPtr, nullptr, false, false, RequestPredicat);
+            DataRequestFunc(Key, vlt, vaultRecords, DataPtr.get(), nullptr, false, false, RequestPredicat);
             break;
         case VaultRequestType::Or:
         case VaultRequestType::And:
@@ -135,9 +130,6 @@ namespace mvlt
     VaultRequest<Type>::~VaultRequest() noexcept
     {
         DBG_LOG_ENTER();
-
-        if (DeleteFunc != nullptr && DataPtr != nullptr)
-            DeleteFunc(DataPtr);
     }
 
     template <VaultRequestType LType, VaultRequestType RType>
-- 
2.43.0


From 454bce71ff8997106925803f17f83c54879445ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:25 +0000
Subject: [PATCH 10/62] fix: unique keys stay unique in a copied vault

---
 Source/Vault.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Source/Vault.hpp b/Source/Vault.hpp
index 57ff1eb..cf2c448 100644
--- a/Source/Vault.hpp
+++ b/Source/Vault.hpp
@@ -516,7 +516,10 @@ namespace mvlt
         
         VaultKeyCopiers.emplace(key, [=](Vault* vaultRecordSet)
         {
-            vaultRecordSet->AddKey(key, defaultKeyValue);
+            if (isUniqueKey)
+                vaultRecordSet->AddUniqueKey<T>(key);
+            else
+                vaultRecordSet->AddKey(key, defaultKeyValue);
         });
 
         if (VaultDerivedClass == VaultDerivedClasses::VaultBase)
-- 
2.43.0


From 25ea1b436f02fc3bad42137bbad9b1e7629b7054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:49 +0000
Subject: [PATCH 11/62] fix: an updated default value reaches copies of the
 vault and its sets

---
 Source/Vault.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/Source/Vault.hpp b/Source/Vault.hpp
index cf2c448..8232264 100644
--- a/Source/Vault.hpp
+++ b/Source/Vault.hpp
@@ -617,6 +617,16 @@ namespace mvlt
         // Change data in template
         RecordTemplate.SetData(key, defaultKeyValue);
 
+        // Vaults and sets that copy this key have to get the new default value
+        VaultKeyCopiers[key] = [=](Vault* vaultRecordSet)
+        {
+            vaultRecordSet->AddKey(key, defaultKeyValue);
+        };
+
+        // Change data in dependent sets
+        for (VaultRecordSet* set : RecordSetsSet)
+            set->UpdateKey(key, defaultKeyValue);
+
         res.SavedType = res.RequestedType;
         res.ResultCode = VaultOperationResultCode::Success;
         return res;
-- 
2.43.0


From 4d3e622b5666271c189f7dd86a351b7f234d444e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:06 +0000
Subject: [PATCH 12/62] fix: a refused unique key leaves no trace in the vault

---
 Source/Vault.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/Source/Vault.hpp b/Source/Vault.hpp
index 8232264..2316745 100644
--- a/Source/Vault.hpp
+++ b/Source/Vault.hpp
@@ -342,6 +342,14 @@ namespace mvlt
             return res;
         }
 
+        // If no lamda provided and vault not empty
+        if (isUniqueKeyWithoutLambda && !RecordsSet.empty())
+        {
+            res.IsOperationSuccess = false;
+            res.ResultCode = VaultOperationResultCode::TryToAddUniqueKeyInNonEmptyVaultWithoutLambda;
+            return res;
+        }
+
         // Create new hash map to store data with template T key
         UnorderedMap<T, VaultRecord*>* TtoVaultRecordHashMap = new UnorderedMap<T, VaultRecord*>(!isUniqueKey);
         VaultHashMapStructure.SetData(key, TtoVaultRecordHashMap, [](const void* ptr)
@@ -361,14 +369,6 @@ namespace mvlt
         // Add new data to record set
         if (isUniqueKey)
         {
-            // If no lamda provided and vault not empty
-            if (isUniqueKeyWithoutLambda && !RecordsSet.empty())
-            {
-                res.IsOperationSuccess = false;
-                res.ResultCode = VaultOperationResultCode::TryToAddUniqueKeyInNonEmptyVaultWithoutLambda;
-                return res;
-            }
-
             std::size_t counter = 0;
             std::vector<T> cachedData;
             bool isCorrectKey = true;
-- 
2.43.0


From 7f57299a5ec19b5fd6f1091c094d3dc9da1ccc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:16 +0000
Subject: [PATCH 13/62] fix: sets take the values of a new unique key from the
 records

---
 Source/Vault.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/Source/Vault.hpp b/Source/Vault.hpp
index 2316745..93d7259 100644
--- a/Source/Vault.hpp
+++ b/Source/Vault.hpp
@@ -527,7 +527,15 @@ namespace mvlt
             for (VaultRecordSet* set : RecordSetsSet)
             {
                 if (isUniqueKey)
-                    set->AddUniqueKey(key, uniqueKeyFunction);
+                {
+                    // The values are already in the records, the function must not be asked for them again
+                    set->AddUniqueKey<T>(key, [&key](const std::size_t&, const VaultRecordRef& ref)
+                        {
+                            T value{};
+                            ref.VaultRecordPtr->GetData(key, value);
+                            return value;
+                        });
+                }
                 else
                     set->AddKey(key, defaultKeyValue);
                 set->KeysOrder.emplace_back(key);
-- 
2.43.0


From 1f3527b9a28d04303de04a5f2adfee3ecf14cc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:36 +0000
Subject: [PATCH 14/62] fix: references and sets follow their records' vault

References obtained through a set wrote into the set only, and references
and sets of a moved vault stayed bound to the moved-from vault.
---
 Source/Vault.cpp          | 16 ++++++++++++++++
 Source/VaultRecord.h      |  3 +++
 Source/VaultRecordRef.cpp | 37 +++++++++++++++----------------------
 Source/VaultRecordRef.h   |  3 ---
 Source/VaultRecordRef.hpp |  8 ++++----
 Source/VaultRecordSet.cpp |  2 +-
 Source/VaultRecordSet.hpp |  3 ---
 7 files changed, 39 insertions(+), 33 deletions(-)

diff --git a/Source/Vault.cpp b/Source/Vault.cpp
index 8ee1abb..f6627a6 100644
--- a/Source/Vault.cpp
+++ b/Source/Vault.cpp
@@ -169,6 +169,7 @@ namespace mvlt
             {
                 // Add new record to set
                 RecordsSet.emplace(newRecord);
+                newRecord->Vlt = this;
 
                 // Add new record to every maps inside VaultStructureHashMap
                 for (const auto& vaultRecordAddersIt : VaultRecordAdders)
@@ -211,6 +212,7 @@ namespace mvlt
             
             // Add new record to set
             RecordsSet.emplace(newRecord);
+            newRecord->Vlt = this;
 
             // Add new record to every maps inside VaultStructureHashMap
             for (const auto& vaultRecordAddersIt : VaultRecordAdders)
@@ -248,6 +250,7 @@ namespace mvlt
                 
                 // Add new record to set
                 RecordsSet.emplace(newRecord);
+                newRecord->Vlt = this;
 
                 // Add new record to every maps inside VaultStructureHashMap
                 for (const auto& vaultRecordAddersIt : VaultRecordAdders)
@@ -280,6 +283,12 @@ namespace mvlt
         InvalidFileRecords = std::move(other.InvalidFileRecords);
         RecordsSet = std::move(other.RecordsSet);
         RecordSetsSet = std::move(other.RecordSetsSet);
+
+        // Records and sets now belong to this
+        for (VaultRecord* record : RecordsSet)
+            record->Vlt = this;
+        for (VaultRecordSet* set : RecordSetsSet)
+            set->ParentVault = this;
     }
 
     Vault& Vault::operator=(Vault&& other) noexcept
@@ -308,6 +317,12 @@ namespace mvlt
             InvalidFileRecords = std::move(other.InvalidFileRecords);
             RecordsSet = std::move(other.RecordsSet);
             RecordSetsSet = std::move(other.RecordSetsSet);
+
+            // Records and sets now belong to this
+            for (VaultRecord* record : RecordsSet)
+                record->Vlt = this;
+            for (VaultRecordSet* set : RecordSetsSet)
+                set->ParentVault = this;
         }
 
         return *this;
@@ -521,6 +536,7 @@ namespace mvlt
             {
                 // Add new record to set
                 RecordsSet.emplace(newRecord);
+                newRecord->Vlt = this;
 
                 // Add new record to every maps inside VaultStructureHashMap
                 for (const auto& vaultRecordAddersIt : VaultRecordAdders)
diff --git a/Source/VaultRecord.h b/Source/VaultRecord.h
index 09a4841..860d006 100644
--- a/Source/VaultRecord.h
+++ b/Source/VaultRecord.h
@@ -29,6 +29,9 @@ namespace mvlt
         // Set with all dependent VaultRecordSets
         std::unordered_set<VaultRecordSet*> dependentVaultRecordSets;
 
+        // Vault in which this record is stored
+        Vault* Vlt = nullptr;
+
     public:
         /// Making the Vault class friendly so that it has access to the internal members of the VaultRecord class
         friend Vault;
diff --git a/Source/VaultRecordRef.cpp b/Source/VaultRecordRef.cpp
index 7f5f6e3..2a739c4 100644
--- a/Source/VaultRecordRef.cpp
+++ b/Source/VaultRecordRef.cpp
@@ -14,7 +14,6 @@ namespace mvlt
         if (VaultRecordPtr != nullptr) VaultRecordPtr->RemoveRef();
 
         VaultRecordPtr = vaultRecord;
-        Vlt = vlt;
 
         vlt->RecursiveReadWriteMtx.ReadUnlock();
     }
@@ -57,12 +56,10 @@ namespace mvlt
 
                 other.VaultRecordPtr->AddRef();
                 VaultRecordPtr = other.VaultRecordPtr;
-                Vlt = other.Vlt;
             }
             else
             {
                 if (VaultRecordPtr != nullptr) VaultRecordPtr->RemoveRef();
-                Vlt = nullptr;
                 VaultRecordPtr = nullptr;
             }
         }
@@ -81,14 +78,11 @@ namespace mvlt
                 if (VaultRecordPtr != nullptr) VaultRecordPtr->RemoveRef();
 
                 VaultRecordPtr = other.VaultRecordPtr;
-                Vlt = other.Vlt;
                 other.VaultRecordPtr = nullptr;
-                other.Vlt = nullptr;
             }
             else
             {
                 if (VaultRecordPtr != nullptr) VaultRecordPtr->RemoveRef();
-                Vlt = nullptr;
                 VaultRecordPtr = nullptr;
             }
         }
@@ -154,7 +148,7 @@ namespace mvlt
 
         VaultOperationResult res;
 
-        WriteLock<RecursiveReadWriteMutex> writeLock(Vlt->RecursiveReadWriteMtx);
+        WriteLock<RecursiveReadWriteMutex> writeLock(VaultRecordPtr->Vlt->RecursiveReadWriteMtx);
 
         // Copy data from function parametrs
         for (const auto& paramsIt : params)
@@ -183,7 +177,7 @@ namespace mvlt
             return res;
         }
 
-        ReadLock<RecursiveReadWriteMutex> readLock(Vlt->RecursiveReadWriteMtx);
+        ReadLock<RecursiveReadWriteMutex> readLock(VaultRecordPtr->Vlt->RecursiveReadWriteMtx);
 
         // Check if Vault still accessable
         if (!VaultRecordPtr->GetIsValid())
@@ -194,7 +188,7 @@ namespace mvlt
         }
 
         // If key not exist
-        if (!Vlt->GetKeyType(key, res.SavedType))
+        if (!VaultRecordPtr->Vlt->GetKeyType(key, res.SavedType))
         {
             res.IsOperationSuccess = false;
             res.ResultCode = VaultOperationResultCode::WrongKey;
@@ -225,7 +219,7 @@ namespace mvlt
 
         bool res = false;
 
-        if (Vlt != nullptr) res = Vlt->IsKeyExist(key);
+        if (IsValid()) res = VaultRecordPtr->Vlt->IsKeyExist(key);
 
         return res;
     }
@@ -240,7 +234,7 @@ namespace mvlt
         {
             // Check if Vault still accessable
             if (VaultRecordPtr->GetIsValid())
-                res = Vlt->GetKeys();
+                res = VaultRecordPtr->Vlt->GetKeys();
         }
 
         return res;
@@ -257,11 +251,11 @@ namespace mvlt
             // Check if Vault still accessable
             if (VaultRecordPtr->GetIsValid())
             {
-                Vlt->RecursiveReadWriteMtx.ReadLock();
+                VaultRecordPtr->Vlt->RecursiveReadWriteMtx.ReadLock();
 
                 std::cout << "Vault record " << VaultRecordPtr << ":" << "\n";
 
-                for (const auto& keyPair : Vlt->VaultHashMapStructure)
+                for (const auto& keyPair : VaultRecordPtr->Vlt->VaultHashMapStructure)
                 {
                     DataSaver dataSaver;
                     VaultRecordPtr->GetDataSaver(keyPair.first, dataSaver);
@@ -269,7 +263,7 @@ namespace mvlt
                     std::cout << "\t" << keyPair.first << " = " << dataSaver.Str() << "\n";
                 }
 
-                Vlt->RecursiveReadWriteMtx.ReadUnlock();
+                VaultRecordPtr->Vlt->RecursiveReadWriteMtx.ReadUnlock();
             }
             else std::cout << "VaultRecordRef not valid!" << "\n";
 
@@ -286,7 +280,6 @@ namespace mvlt
             VaultRecordPtr->RemoveRef();
 
         VaultRecordPtr = nullptr;
-        Vlt = nullptr;
     }
 
     std::string VaultRecordRef::ToJson(const bool& isFormat, const std::size_t& tabSize) const noexcept
@@ -304,9 +297,9 @@ namespace mvlt
             // Check if Vault still accessable
             if (VaultRecordPtr->GetIsValid())
             {
-                Vlt->RecursiveReadWriteMtx.ReadLock();
+                VaultRecordPtr->Vlt->RecursiveReadWriteMtx.ReadLock();
 
-                for (const std::string& key : Vlt->KeysOrder)
+                for (const std::string& key : VaultRecordPtr->Vlt->KeysOrder)
                 {
                     if (isFormat) res += "\n" + tab;
 
@@ -319,10 +312,10 @@ namespace mvlt
                     res += mvlt::ToJson(dataSaver);
 
                     ++keyCounter;
-                    if (keyCounter != Vlt->KeysOrder.size()) res += ",";
+                    if (keyCounter != VaultRecordPtr->Vlt->KeysOrder.size()) res += ",";
                 }
 
-                Vlt->RecursiveReadWriteMtx.ReadUnlock();
+                VaultRecordPtr->Vlt->RecursiveReadWriteMtx.ReadUnlock();
             }
 
             VaultRecordPtr->VaultRecordMutex.unlock();
@@ -347,9 +340,9 @@ namespace mvlt
             // Check if Vault still accessable
             if (VaultRecordPtr->GetIsValid())
             {
-                Vlt->RecursiveReadWriteMtx.ReadLock();
+                VaultRecordPtr->Vlt->RecursiveReadWriteMtx.ReadLock();
 
-                for (const std::string& key : Vlt->KeysOrder)
+                for (const std::string& key : VaultRecordPtr->Vlt->KeysOrder)
                 {
                     DataSaver dataSaver;
                     VaultRecordPtr->GetDataSaver(key, dataSaver);
@@ -357,7 +350,7 @@ namespace mvlt
                     res.emplace_back(std::pair<std::string, std::string>(key, dataSaver.Str()));
                 }
 
-                Vlt->RecursiveReadWriteMtx.ReadUnlock();
+                VaultRecordPtr->Vlt->RecursiveReadWriteMtx.ReadUnlock();
             }
 
             VaultRecordPtr->VaultRecordMutex.unlock();
diff --git a/Source/VaultRecordRef.h b/Source/VaultRecordRef.h
index a22884f..3f07abf 100644
--- a/Source/VaultRecordRef.h
+++ b/Source/VaultRecordRef.h
@@ -20,9 +20,6 @@ namespace mvlt
     class VaultRecordRef
     {
     private:
-        // Pointer to Vault
-        Vault* Vlt = nullptr;
-
         // Pointer to VaultRecord inside Vault
         VaultRecord* VaultRecordPtr = nullptr;
 
diff --git a/Source/VaultRecordRef.hpp b/Source/VaultRecordRef.hpp
index b3ed023..8da1cb1 100644
--- a/Source/VaultRecordRef.hpp
+++ b/Source/VaultRecordRef.hpp
@@ -26,7 +26,7 @@ namespace mvlt
             return res;
         }
 
-        WriteLock<RecursiveReadWriteMutex> Lock(Vlt->RecursiveReadWriteMtx);
+        WriteLock<RecursiveReadWriteMutex> Lock(VaultRecordPtr->Vlt->RecursiveReadWriteMtx);
 
         // Check if Vault still accessable
         if (!VaultRecordPtr->GetIsValid())
@@ -36,7 +36,7 @@ namespace mvlt
             return res;
         }
 
-        res = Vlt->SetDataToRecord(VaultRecordPtr, key, data);
+        res = VaultRecordPtr->Vlt->SetDataToRecord(VaultRecordPtr, key, data);
 
         return res;
     }
@@ -64,7 +64,7 @@ namespace mvlt
             return res;
         }
 
-        ReadLock<RecursiveReadWriteMutex> readLock(Vlt->RecursiveReadWriteMtx);
+        ReadLock<RecursiveReadWriteMutex> readLock(VaultRecordPtr->Vlt->RecursiveReadWriteMtx);
 
         // Check if Vault still accessable
         if (!VaultRecordPtr->GetIsValid())
@@ -75,7 +75,7 @@ namespace mvlt
         }
 
         // If key not exist
-        if(!Vlt->GetKeyType(key, res.SavedType))
+        if(!VaultRecordPtr->Vlt->GetKeyType(key, res.SavedType))
         {
             res.IsOperationSuccess = false;
             res.ResultCode = VaultOperationResultCode::WrongKey;
diff --git a/Source/VaultRecordSet.cpp b/Source/VaultRecordSet.cpp
index af78276..d4c4232 100644
--- a/Source/VaultRecordSet.cpp
+++ b/Source/VaultRecordSet.cpp
@@ -187,7 +187,7 @@ namespace mvlt
             ReadLock<RecursiveReadWriteMutex> readLock(ParentVault->RecursiveReadWriteMtx);
 
             // Check if vault record ref depends on same vault as this
-            if (recordRef.Vlt == ParentVault && recordRef.IsValid())
+            if (recordRef.IsValid() && recordRef.VaultRecordPtr->Vlt == ParentVault)
             {
                 // Add pointer to record from recordRef to this
                 std::pair<decltype(RecordsSet.begin()), bool> emplaceRes = RecordsSet.emplace(recordRef.VaultRecordPtr);
diff --git a/Source/VaultRecordSet.hpp b/Source/VaultRecordSet.hpp
index 36067e3..64aee33 100644
--- a/Source/VaultRecordSet.hpp
+++ b/Source/VaultRecordSet.hpp
@@ -98,7 +98,6 @@ namespace mvlt
             ReadLock<RecursiveReadWriteMutex> readLock(ParentVault->RecursiveReadWriteMtx);
 
             res = Vault::GetRecord(key, keyValue, vaultRecordRef);
-            vaultRecordRef.Vlt = ParentVault;
         }
         else
         {
@@ -123,8 +122,6 @@ namespace mvlt
             ReadLock<RecursiveReadWriteMutex> readLock(ParentVault->RecursiveReadWriteMtx);
 
             res = Vault::GetRecords(key, keyValue, recordsRefs, amountOfRecords);
-            for (VaultRecordRef& ref : recordsRefs)
-                ref.Vlt = ParentVault;
         }
         else
         {
-- 
2.43.0


From 3b1ae8e700eb6b94260f170e366b56240acf08f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:41 +0000
Subject: [PATCH 15/62] fix: references check their record before they touch
 its vault

Using a reference that was never set, or whose vault is gone, read a null or
freed vault.
---
 Source/VaultRecordRef.cpp | 16 +++++++++++++++-
 Source/VaultRecordRef.hpp |  4 ++--
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/Source/VaultRecordRef.cpp b/Source/VaultRecordRef.cpp
index 2a739c4..fd7b7b8 100644
--- a/Source/VaultRecordRef.cpp
+++ b/Source/VaultRecordRef.cpp
@@ -148,6 +148,20 @@ namespace mvlt
 
         VaultOperationResult res;
 
+        // Check if record is valid
+        if (!IsValid())
+        {
+            if (!params.empty())
+            {
+                res.Key = params.front().first;
+                res.RequestedType = params.front().second.GetDataType();
+            }
+
+            res.IsOperationSuccess = false;
+            res.ResultCode = VaultOperationResultCode::DataRecordNotValid;
+            return res;
+        }
+
         WriteLock<RecursiveReadWriteMutex> writeLock(VaultRecordPtr->Vlt->RecursiveReadWriteMtx);
 
         // Copy data from function parametrs
@@ -169,7 +183,7 @@ namespace mvlt
         res.Key = key;
         res.RequestedType = typeid(std::string);
 
-        if (VaultRecordPtr == nullptr)
+        if (!IsValid())
         {
             res.IsOperationSuccess = false;
             res.ResultCode = VaultOperationResultCode::DataRecordNotValid;
diff --git a/Source/VaultRecordRef.hpp b/Source/VaultRecordRef.hpp
index 8da1cb1..a1c7d21 100644
--- a/Source/VaultRecordRef.hpp
+++ b/Source/VaultRecordRef.hpp
@@ -19,7 +19,7 @@ namespace mvlt
         res.Key = key;
         res.RequestedType = typeid(T);
 
-        if (VaultRecordPtr == nullptr)
+        if (!IsValid())
         {
             res.IsOperationSuccess = false;
             res.ResultCode = VaultOperationResultCode::DataRecordNotValid;
@@ -56,7 +56,7 @@ namespace mvlt
         res.RequestedType = typeid(T);
 
 
-        if (VaultRecordPtr == nullptr)
+        if (!IsValid())
         {
             res.IsOperationSuccess = false;
             res.ResultCode = VaultOperationResultCode::DataRecordNotValid;
-- 
2.43.0


From 4523622ffc54d1332c0c7b1c587bfd2b0d5f4e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:20 +0000
Subject: [PATCH 16/62] fix: printing or serialising a reference locks the
 vault before the record

The opposite order deadlocked with a concurrent update of the same record.
---
 Source/VaultRecordRef.cpp | 33 +++++++++------------------------
 1 file changed, 9 insertions(+), 24 deletions(-)

diff --git a/Source/VaultRecordRef.cpp b/Source/VaultRecordRef.cpp
index fd7b7b8..665de17 100644
--- a/Source/VaultRecordRef.cpp
+++ b/Source/VaultRecordRef.cpp
@@ -258,15 +258,14 @@ namespace mvlt
     {
         DBG_LOG_ENTER();
 
-        if (VaultRecordPtr != nullptr)
+        if (IsValid())
         {
-            VaultRecordPtr->VaultRecordMutex.lock();
+            // Lock Vault before the record, as all other methods do
+            ReadLock<RecursiveReadWriteMutex> readLock(VaultRecordPtr->Vlt->RecursiveReadWriteMtx);
 
             // Check if Vault still accessable
             if (VaultRecordPtr->GetIsValid())
             {
-                VaultRecordPtr->Vlt->RecursiveReadWriteMtx.ReadLock();
-
                 std::cout << "Vault record " << VaultRecordPtr << ":" << "\n";
 
                 for (const auto& keyPair : VaultRecordPtr->Vlt->VaultHashMapStructure)
@@ -276,12 +275,8 @@ namespace mvlt
 
                     std::cout << "\t" << keyPair.first << " = " << dataSaver.Str() << "\n";
                 }
-
-                VaultRecordPtr->Vlt->RecursiveReadWriteMtx.ReadUnlock();
             }
             else std::cout << "VaultRecordRef not valid!" << "\n";
-
-            VaultRecordPtr->VaultRecordMutex.unlock();
         }
         else std::cout << "VaultRecordRef not valid!" << "\n";
     }
@@ -304,15 +299,14 @@ namespace mvlt
         std::size_t keyCounter = 0;
         std::string res = "{";
 
-        if (VaultRecordPtr != nullptr)
+        if (IsValid())
         {
-            VaultRecordPtr->VaultRecordMutex.lock();
+            // Lock Vault before the record, as all other methods do
+            ReadLock<RecursiveReadWriteMutex> readLock(VaultRecordPtr->Vlt->RecursiveReadWriteMtx);
 
             // Check if Vault still accessable
             if (VaultRecordPtr->GetIsValid())
             {
-                VaultRecordPtr->Vlt->RecursiveReadWriteMtx.ReadLock();
-
                 for (const std::string& key : VaultRecordPtr->Vlt->KeysOrder)
                 {
                     if (isFormat) res += "\n" + tab;
@@ -328,11 +322,7 @@ namespace mvlt
                     ++keyCounter;
                     if (keyCounter != VaultRecordPtr->Vlt->KeysOrder.size()) res += ",";
                 }
-
-                VaultRecordPtr->Vlt->RecursiveReadWriteMtx.ReadUnlock();
             }
-
-            VaultRecordPtr->VaultRecordMutex.unlock();
         }
 
         if (isFormat) res += "\n";
@@ -347,15 +337,14 @@ namespace mvlt
 
         std::vector<std::pair<std::string, std::string>> res;
 
-        if (VaultRecordPtr != nullptr)
+        if (IsValid())
         {
-            VaultRecordPtr->VaultRecordMutex.lock();
+            // Lock Vault before the record, as all other methods do
+            ReadLock<RecursiveReadWriteMutex> readLock(VaultRecordPtr->Vlt->RecursiveReadWriteMtx);
 
             // Check if Vault still accessable
             if (VaultRecordPtr->GetIsValid())
             {
-                VaultRecordPtr->Vlt->RecursiveReadWriteMtx.ReadLock();
-
                 for (const std::string& key : VaultRecordPtr->Vlt->KeysOrder)
                 {
                     DataSaver dataSaver;
@@ -363,11 +352,7 @@ namespace mvlt
 
                     res.emplace_back(std::pair<std::string, std::string>(key, dataSaver.Str()));
                 }
-
-                VaultRecordPtr->Vlt->RecursiveReadWriteMtx.ReadUnlock();
             }
-
-            VaultRecordPtr->VaultRecordMutex.unlock();
         }
 
         return res;
-- 
2.43.0


From a8f63d82a0f6c83f3dfd91ac04ea785c68a417c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:24 +0000
Subject: [PATCH 17/62] fix: records added to a set by Join or Intersection
 keep that set up to date

---
 Source/VaultRecordSet.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Source/VaultRecordSet.cpp b/Source/VaultRecordSet.cpp
index d4c4232..78a0f25 100644
--- a/Source/VaultRecordSet.cpp
+++ b/Source/VaultRecordSet.cpp
@@ -425,6 +425,8 @@ namespace mvlt
 
                     for (auto& adder : VaultRecordAdders)
                         adder.second(record);
+
+                    record->AddToDependentSets(this);
                 }
             }
         }
@@ -674,6 +676,8 @@ namespace mvlt
 
                         for (auto& adder : res.VaultRecordAdders)
                             adder.second(record);
+
+                        record->AddToDependentSets(&res);
                     }
                 }
             }
@@ -689,6 +693,8 @@ namespace mvlt
 
                         for (auto& adder : res.VaultRecordAdders)
                             adder.second(record);
+
+                        record->AddToDependentSets(&res);
                     }
                 }
             }
-- 
2.43.0


From 846100323bee6fb8215609515ed71f3c5fc02c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:37 +0000
Subject: [PATCH 18/62] fix: a record removed from a set no longer updates that
 set

---
 Source/Vault.cpp       | 2 ++
 Source/Vault.hpp       | 4 ++++
 Source/VaultRecord.cpp | 4 +++-
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/Source/Vault.cpp b/Source/Vault.cpp
index f6627a6..40cf6a2 100644
--- a/Source/Vault.cpp
+++ b/Source/Vault.cpp
@@ -32,6 +32,8 @@ namespace mvlt
             recordToErase->RemoveFromDependentSets();
             recordToErase->Invalidate();
         }
+        else
+            recordToErase->EraseDependentSet(static_cast<VaultRecordSet*>(this));
 
         if (wasDeleted != nullptr) *wasDeleted = true;
         return dataIt;
diff --git a/Source/Vault.hpp b/Source/Vault.hpp
index 93d7259..ffe19c4 100644
--- a/Source/Vault.hpp
+++ b/Source/Vault.hpp
@@ -1010,6 +1010,8 @@ namespace mvlt
                 tmpRec->RemoveFromDependentSets();
                 tmpRec->Invalidate();
             }
+            else
+                tmpRec->EraseDependentSet(static_cast<VaultRecordSet*>(this));
 
             res.IsOperationSuccess = true;
             res.ResultCode = VaultOperationResultCode::Success;
@@ -1093,6 +1095,8 @@ namespace mvlt
                     tmpRec->RemoveFromDependentSets();
                     tmpRec->Invalidate();
                 }
+                else
+                    tmpRec->EraseDependentSet(static_cast<VaultRecordSet*>(this));
 
                 equalRangeIt = nextIt;
             }
diff --git a/Source/VaultRecord.cpp b/Source/VaultRecord.cpp
index 72b65cf..72c5bbb 100644
--- a/Source/VaultRecord.cpp
+++ b/Source/VaultRecord.cpp
@@ -115,7 +115,9 @@ namespace mvlt
         DBG_LOG_ENTER();
 
         VaultRecordMutex.lock();
-        for (VaultRecordSet* set : dependentVaultRecordSets)
+        // Iterate over a copy because each set removes itself from the dependent sets
+        const std::unordered_set<VaultRecordSet*> sets = dependentVaultRecordSets;
+        for (VaultRecordSet* set : sets)
             set->RemoveRecord(this, nullptr);
 
         VaultRecordMutex.unlock();
-- 
2.43.0


From 7e21fa27f1d17dc48be05599d1725b19b8ceadb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:11 +0000
Subject: [PATCH 19/62] fix: a moved set has complete indexes and drops its
 previous contents

---
 Source/VaultRecordSet.cpp | 32 ++++----------------------------
 1 file changed, 4 insertions(+), 28 deletions(-)

diff --git a/Source/VaultRecordSet.cpp b/Source/VaultRecordSet.cpp
index 78a0f25..819c629 100644
--- a/Source/VaultRecordSet.cpp
+++ b/Source/VaultRecordSet.cpp
@@ -46,32 +46,9 @@ namespace mvlt
     {
         DBG_LOG_ENTER();
 
-        WriteLock<RecursiveReadWriteMutex> writeLock(other.ParentVault->RecursiveReadWriteMtx);
-
-        VaultDerivedClass = VaultDerivedClasses::VaultRecordSetDerived;
-
-        for (VaultRecord* record : other.RecordsSet)
-        {
-            record->EraseDependentSet(&other);
-            record->AddToDependentSets(this);
-        }
-
-        ParentVault = other.ParentVault;
-        other.ParentVault = nullptr;
-
-        for (auto& keyCopierIt : other.VaultKeyCopiers)
-            keyCopierIt.second(this);
-
-        KeysOrder = std::move(other.KeysOrder);
-        UniqueKeys = std::move(other.UniqueKeys);
-        InvalidFileRecords = std::move(other.InvalidFileRecords);
-        RecordsSet = std::move(other.RecordsSet);
-        RecordSetsSet = std::move(other.RecordSetsSet);
-
-        ParentVault->RecordSetsSet.erase(&other);
-        ParentVault->RecordSetsSet.emplace(this);
-
-        RecursiveReadWriteMtx.Disable();
+        // Structures of a set refer to the set itself, so they are built anew
+        CopySet(other);
+        other.Reset();
     }
 
     VaultRecordSet::VaultRecordSet() noexcept
@@ -119,10 +96,9 @@ namespace mvlt
 
         if (&other != this)
         {
+            Reset();
             if (other.GetIsParentVaultValid())
                 MoveSet(std::move(other));
-            else
-                Reset();
         }
 
         return *this;
-- 
2.43.0


From bfcf5888c2dac406112627ef841f7b397d35d33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:44 +0000
Subject: [PATCH 20/62] fix: concurrent requests register their sets safely

---
 Source/Vault.cpp          |  8 ++++++++
 Source/Vault.h            | 11 +++++++++++
 Source/Vault.hpp          |  4 ++--
 Source/VaultRecordSet.cpp |  4 ++--
 Source/VaultRecordSet.hpp |  4 ++--
 5 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/Source/Vault.cpp b/Source/Vault.cpp
index 40cf6a2..14c5ceb 100644
--- a/Source/Vault.cpp
+++ b/Source/Vault.cpp
@@ -6,6 +6,14 @@
 
 namespace mvlt
 {
+    void Vault::RegisterRecordSet(VaultRecordSet* vaultRecordSet) const noexcept
+    {
+        DBG_LOG_ENTER();
+
+        std::lock_guard<std::mutex> lock(RecordSetsSetMtx);
+        RecordSetsSet.emplace(vaultRecordSet);
+    }
+
     std::unordered_set<VaultRecord*>::iterator Vault::RemoveRecord(VaultRecord* recordToErase, bool* wasDeleted) noexcept
     {
         DBG_LOG_ENTER();
diff --git a/Source/Vault.h b/Source/Vault.h
index ffa6a34..96eba8a 100644
--- a/Source/Vault.h
+++ b/Source/Vault.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <list>
+#include <mutex>
 #include <vector>
 #include <functional>
 
@@ -112,6 +113,16 @@ namespace mvlt
         /// \brief Unordered set with all VaultRecordSet pointers
         mutable std::unordered_set<VaultRecordSet*> RecordSetsSet;
 
+        /// \brief Mutex for RecordSetsSet. Requests register their sets in it while the Vault is only locked to read
+        mutable std::mutex RecordSetsSetMtx;
+
+        /**
+            \brief Method for saving a VaultRecordSet in RecordSetsSet
+
+            \param [in] vaultRecordSet pointer to the set that now depends on this Vault
+        */
+        void RegisterRecordSet(VaultRecordSet* vaultRecordSet) const noexcept;
+
         /**
             \brief Method for setting a new value in VaultRecord and Vault
 
diff --git a/Source/Vault.hpp b/Source/Vault.hpp
index ffe19c4..3478911 100644
--- a/Source/Vault.hpp
+++ b/Source/Vault.hpp
@@ -282,7 +282,7 @@ namespace mvlt
         if (VaultDerivedClass == VaultDerivedClasses::VaultBase)
         {
             // Save vaultRecordSet
-            RecordSetsSet.emplace(&vaultRecordSet);
+            RegisterRecordSet(&vaultRecordSet);
 
             // Remove old data from vaultRecordSet
             if (vaultRecordSet.ParentVault != this)
@@ -906,7 +906,7 @@ namespace mvlt
         if (VaultDerivedClass == VaultDerivedClasses::VaultBase)
         {
             // Save vaultRecordSet
-            RecordSetsSet.emplace(&vaultRecordSet);
+            RegisterRecordSet(&vaultRecordSet);
 
             // Remove old data from vaultRecordSet
             if (vaultRecordSet.ParentVault != this)
diff --git a/Source/VaultRecordSet.cpp b/Source/VaultRecordSet.cpp
index 819c629..59705fc 100644
--- a/Source/VaultRecordSet.cpp
+++ b/Source/VaultRecordSet.cpp
@@ -26,7 +26,7 @@ namespace mvlt
         UniqueKeys = other.UniqueKeys;
         InvalidFileRecords = other.InvalidFileRecords;
 
-        other.ParentVault->RecordSetsSet.emplace(this);
+        other.ParentVault->RegisterRecordSet(this);
 
         for (VaultRecord* record : other.RecordsSet)
         {
@@ -637,7 +637,7 @@ namespace mvlt
             // Set unique keys
             res.UniqueKeys = a.UniqueKeys;
 
-            a.ParentVault->RecordSetsSet.emplace(&res);
+            a.ParentVault->RegisterRecordSet(&res);
 
             // Pick less set to iterate
             if (a.RecordsSet.size() < b.RecordsSet.size())
diff --git a/Source/VaultRecordSet.hpp b/Source/VaultRecordSet.hpp
index 64aee33..49aa8d6 100644
--- a/Source/VaultRecordSet.hpp
+++ b/Source/VaultRecordSet.hpp
@@ -46,7 +46,7 @@ namespace mvlt
                 else vaultRecordSet.Clear();
 
                 // Save vaultRecordSet
-                ParentVault->RecordSetsSet.emplace(&vaultRecordSet);
+                ParentVault->RegisterRecordSet(&vaultRecordSet);
 
                 res = Vault::RequestRecords(requestType, key, beginKeyValue, endKeyValue, vaultRecordSet, isIncludeBeginKeyValue, isIncludeEndKeyValue, amountOfRecords, requestPredicat);
                 vaultRecordSet.ParentVault = ParentVault;
@@ -231,7 +231,7 @@ namespace mvlt
                 else vaultRecordSet.Clear();
 
                 // Save vaultRecordSet
-                ParentVault->RecordSetsSet.emplace(&vaultRecordSet);
+                ParentVault->RegisterRecordSet(&vaultRecordSet);
 
                 res = Vault::Request(std::move(request), vaultRecordSet);
                 vaultRecordSet.ParentVault = ParentVault;
-- 
2.43.0


From 5d4e9dbdebaf7f02e61454e58137c03ed1451880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:07 +0000
Subject: [PATCH 21/62] fix: a spurious wakeup does not let a writer in next to
 readers

---
 Source/ReadWriteMutex.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/ReadWriteMutex.cpp b/Source/ReadWriteMutex.cpp
index d8bc577..57bbba8 100644
--- a/Source/ReadWriteMutex.cpp
+++ b/Source/ReadWriteMutex.cpp
@@ -51,7 +51,7 @@ namespace mvlt
 
             IsCondVarWaiting.store(true);
 
-            if (ReadCounter > 0) Cv.wait(lk);
+            while (ReadCounter > 0) Cv.wait(lk);
 
             IsCondVarWaiting.store(false);
         }
-- 
2.43.0


From 9ddaa1e8595288595655e00e0f95ae569660e22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:21 +0000
Subject: [PATCH 22/62] fix: recursive locks of one mutex do not count as locks
 of another

---
 Source/ReadWriteMutex.cpp | 53 ++++++++++++++++++++++++++++-----------
 Source/ReadWriteMutex.h   | 21 ++++++++++++++++
 2 files changed, 59 insertions(+), 15 deletions(-)

diff --git a/Source/ReadWriteMutex.cpp b/Source/ReadWriteMutex.cpp
index 57bbba8..cc54b12 100644
--- a/Source/ReadWriteMutex.cpp
+++ b/Source/ReadWriteMutex.cpp
@@ -65,8 +65,20 @@ namespace mvlt
         }
     }
 
-    thread_local std::size_t LocalThreadReadLockCounter = 0;
-    thread_local std::size_t LocalThreadWriteLockCounter = 0;
+    RecursiveReadWriteMutex::ThreadLockCounters& RecursiveReadWriteMutex::GetCounters() noexcept
+    {
+        std::lock_guard<std::mutex> lock(CountersMutex);
+        return Counters[std::this_thread::get_id()];
+    }
+
+    void RecursiveReadWriteMutex::ReleaseCounters(const ThreadLockCounters& counters) noexcept
+    {
+        if (counters.Read == 0 && counters.Write == 0)
+        {
+            std::lock_guard<std::mutex> lock(CountersMutex);
+            Counters.erase(std::this_thread::get_id());
+        }
+    }
 
     void RecursiveReadWriteMutex::Disable() noexcept
     {
@@ -77,12 +89,14 @@ namespace mvlt
     {
         if (IsActive)
         {
-            if (LocalThreadWriteLockCounter == 0)
+            ThreadLockCounters& counters = GetCounters();
+
+            if (counters.Write == 0)
             {
-                if (LocalThreadReadLockCounter == 0)
+                if (counters.Read == 0)
                     Rwmx.ReadLock();
 
-                ++LocalThreadReadLockCounter;
+                ++counters.Read;
             }
         }
     }
@@ -91,12 +105,15 @@ namespace mvlt
     {
         if (IsActive)
         {
-            if (LocalThreadWriteLockCounter == 0)
+            ThreadLockCounters& counters = GetCounters();
+
+            if (counters.Write == 0)
             {
-                if (LocalThreadReadLockCounter == 1)
+                if (counters.Read == 1)
                     Rwmx.ReadUnlock();
 
-                --LocalThreadReadLockCounter;
+                --counters.Read;
+                ReleaseCounters(counters);
             }
         }
     }
@@ -105,15 +122,17 @@ namespace mvlt
     {
         if (IsActive)
         {
-            if (LocalThreadWriteLockCounter == 0)
+            ThreadLockCounters& counters = GetCounters();
+
+            if (counters.Write == 0)
             {
-                if (LocalThreadReadLockCounter > 0)
+                if (counters.Read > 0)
                     Rwmx.ReadUnlock();
 
                 Rwmx.WriteLock();
             }
 
-            ++LocalThreadWriteLockCounter;
+            ++counters.Write;
         }
     }
 
@@ -121,13 +140,17 @@ namespace mvlt
     {
         if (IsActive)
         {
-            if (LocalThreadWriteLockCounter == 1)
+            ThreadLockCounters& counters = GetCounters();
+
+            if (counters.Write == 1)
             {
                 Rwmx.WriteUnlock();
-                if (LocalThreadReadLockCounter > 0)
+                if (counters.Read > 0)
                     Rwmx.ReadLock();
             }
-            --LocalThreadWriteLockCounter;
+
+            --counters.Write;
+            ReleaseCounters(counters);
         }
     }
-}
\ No newline at end of file
+}
diff --git a/Source/ReadWriteMutex.h b/Source/ReadWriteMutex.h
index 8bb164e..cb7b312 100644
--- a/Source/ReadWriteMutex.h
+++ b/Source/ReadWriteMutex.h
@@ -3,7 +3,9 @@
 #include <mutex>
 #include <atomic>
 #include <thread>
+#include <cstddef>
 #include <iostream>
+#include <unordered_map>
 #include <condition_variable>
 
 namespace mvlt
@@ -70,8 +72,27 @@ namespace mvlt
     class RecursiveReadWriteMutex
     {
     private:
+        // How many times one thread holds this mutex
+        struct ThreadLockCounters
+        {
+            std::size_t Read = 0;
+            std::size_t Write = 0;
+        };
+
         ReadWriteMutex Rwmx;
 
+        // Counters of every thread that holds this mutex. Each thread changes only its own counters
+        std::unordered_map<std::thread::id, ThreadLockCounters> Counters;
+
+        // Mutex to find, add and remove counters
+        std::mutex CountersMutex;
+
+        // Get counters of the current thread
+        ThreadLockCounters& GetCounters() noexcept;
+
+        // Remove counters of the current thread if it does not hold this mutex any more
+        void ReleaseCounters(const ThreadLockCounters& counters) noexcept;
+
         // A variable for switching the operation of the mutex. It is needed so that you can disable the mutex during inheritance
         bool IsActive = true;
 
-- 
2.43.0


From 7bf4ca083e01f54e78bd75ef7a14b4643e5ee3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:11 +0000
Subject: [PATCH 23/62] fix: vault assignment changes vaults only under their
 write locks

---
 Source/Vault.cpp | 81 +++++++++++++-----------------------------------
 Source/Vault.h   |  9 ++++++
 2 files changed, 30 insertions(+), 60 deletions(-)

diff --git a/Source/Vault.cpp b/Source/Vault.cpp
index 14c5ceb..9a89803 100644
--- a/Source/Vault.cpp
+++ b/Source/Vault.cpp
@@ -236,49 +236,18 @@ namespace mvlt
 
         if (&other != this)
         {
-            DropVault();
-
-            ReadLock<RecursiveReadWriteMutex> readLock(RecursiveReadWriteMtx);
-            ReadLock<RecursiveReadWriteMutex> otherReadLock(other.RecursiveReadWriteMtx);
-
-            VaultDerivedClass = VaultDerivedClasses::VaultBase;
-
-            // Copy keys
-            for (auto& keyCopierIt : other.VaultKeyCopiers)
-                keyCopierIt.second(this);
-
-            // Set proper key order
-            KeysOrder = other.KeysOrder;
-
-            // Set unique keys
-            UniqueKeys = other.UniqueKeys;
-
-            for (VaultRecord* recordPtr : other.RecordsSet)
-            {
-                // Allocate space to new record and copy data to it
-                VaultRecord* newRecord = new VaultRecord(*recordPtr);
-                
-                // Add new record to set
-                RecordsSet.emplace(newRecord);
-                newRecord->Vlt = this;
-
-                // Add new record to every maps inside VaultStructureHashMap
-                for (const auto& vaultRecordAddersIt : VaultRecordAdders)
-                    vaultRecordAddersIt.second(newRecord);
-            }
+            // The two vaults are never locked together, so vaults assigned to each other do not deadlock
+            Vault tmp(other);
+            *this = std::move(tmp);
         }
 
         return *this;
     }
 
-    Vault::Vault(Vault&& other) noexcept
+    void Vault::MoveData(Vault& other) noexcept
     {
         DBG_LOG_ENTER();
 
-        ReadLock<RecursiveReadWriteMutex> otherReadLock(other.RecursiveReadWriteMtx);
-
-        VaultDerivedClass = VaultDerivedClasses::VaultBase;
-
         RecordTemplate = std::move(other.RecordTemplate);
         VaultHashMapStructure = std::move(other.VaultHashMapStructure);
         VaultMapStructure = std::move(other.VaultMapStructure);
@@ -301,38 +270,30 @@ namespace mvlt
             set->ParentVault = this;
     }
 
+    Vault::Vault(Vault&& other) noexcept
+    {
+        DBG_LOG_ENTER();
+
+        WriteLock<RecursiveReadWriteMutex> otherWriteLock(other.RecursiveReadWriteMtx);
+
+        VaultDerivedClass = VaultDerivedClasses::VaultBase;
+
+        MoveData(other);
+    }
+
     Vault& Vault::operator=(Vault&& other) noexcept
     {
         DBG_LOG_ENTER();
 
         if (this != &other)
         {
-            DropVault();
+            // The two vaults are never locked together, so vaults assigned to each other do not deadlock
+            Vault tmp(std::move(other));
 
-            ReadLock<RecursiveReadWriteMutex> otherReadLock(other.RecursiveReadWriteMtx);
-
-            VaultDerivedClass = VaultDerivedClasses::VaultBase;
-
-            RecordTemplate = std::move(other.RecordTemplate);
-            VaultHashMapStructure = std::move(other.VaultHashMapStructure);
-            VaultMapStructure = std::move(other.VaultMapStructure);
-            KeysTypes = std::move(other.KeysTypes);
-            VaultRecordAdders = std::move(other.VaultRecordAdders);
-            VaultRecordClearers = std::move(other.VaultRecordClearers);
-            VaultRecordErasers = std::move(other.VaultRecordErasers);
-            VaultRecordSorters = std::move(other.VaultRecordSorters);
-            VaultKeyCopiers = std::move(other.VaultKeyCopiers);
-            KeysOrder = std::move(other.KeysOrder);
-            UniqueKeys = std::move(other.UniqueKeys);
-            InvalidFileRecords = std::move(other.InvalidFileRecords);
-            RecordsSet = std::move(other.RecordsSet);
-            RecordSetsSet = std::move(other.RecordSetsSet);
-
-            // Records and sets now belong to this
-            for (VaultRecord* record : RecordsSet)
-                record->Vlt = this;
-            for (VaultRecordSet* set : RecordSetsSet)
-                set->ParentVault = this;
+            WriteLock<RecursiveReadWriteMutex> writeLock(RecursiveReadWriteMtx);
+
+            DropVault();
+            MoveData(tmp);
         }
 
         return *this;
diff --git a/Source/Vault.h b/Source/Vault.h
index 96eba8a..692910d 100644
--- a/Source/Vault.h
+++ b/Source/Vault.h
@@ -212,6 +212,15 @@ namespace mvlt
         VaultOperationResult AddKey(const std::string& key, const T& defaultKeyValue, const bool& isUniqueKey, const bool& isUniqueKeyWithoutLambda,
             const std::function<T(const std::size_t& counter, const VaultRecordRef& ref)>& uniqueKeyFunction) noexcept;
 
+        /**
+            \brief Method for taking keys, records and sets of another vault
+
+            Both vaults must be locked to write or unknown to other threads. This must be empty
+
+            \param [in] other vault to move data from
+        */
+        void MoveData(Vault& other) noexcept;
+
         /**
             \brief A method for reading a csv file and loading data from it into memory
 
-- 
2.43.0


From 36b60480be8d3ee71ea4700cfa1f86975ecf06a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:05 +0000
Subject: [PATCH 24/62] fix: a request never holds the locks of two vaults

---
 Source/Vault.hpp          | 12 ++++++++----
 Source/VaultRecordSet.hpp | 10 ++++++----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/Source/Vault.hpp b/Source/Vault.hpp
index 3478911..3718fc1 100644
--- a/Source/Vault.hpp
+++ b/Source/Vault.hpp
@@ -275,6 +275,10 @@ namespace mvlt
 
         VaultOperationResult res;
 
+        // Detach vaultRecordSet from another vault before this is locked, so two vaults are never locked together
+        if (VaultDerivedClass == VaultDerivedClasses::VaultBase && vaultRecordSet.ParentVault != this)
+            vaultRecordSet.Reset();
+
         // Lock Vault to read
         ReadLock<RecursiveReadWriteMutex> readLock(RecursiveReadWriteMtx);
 
@@ -287,8 +291,6 @@ namespace mvlt
             // Remove old data from vaultRecordSet
             if (vaultRecordSet.ParentVault != this)
             {
-                vaultRecordSet.Reset();
-
                 // Set new parent vault to vaultRecordSet
                 vaultRecordSet.ParentVault = const_cast<Vault*>(this);
 
@@ -899,6 +901,10 @@ namespace mvlt
         res.IsOperationSuccess = true;
         res.ResultCode = VaultOperationResultCode::Success;
 
+        // Detach vaultRecordSet from another vault before this is locked, so two vaults are never locked together
+        if (VaultDerivedClass == VaultDerivedClasses::VaultBase && vaultRecordSet.ParentVault != this)
+            vaultRecordSet.Reset();
+
         // Lock Vault to read
         ReadLock<RecursiveReadWriteMutex> readLock(RecursiveReadWriteMtx);
 
@@ -911,8 +917,6 @@ namespace mvlt
             // Remove old data from vaultRecordSet
             if (vaultRecordSet.ParentVault != this)
             {
-                vaultRecordSet.Reset();
-
                 // Set new parent vault to vaultRecordSet
                 vaultRecordSet.ParentVault = const_cast<Vault*>(this);
 
diff --git a/Source/VaultRecordSet.hpp b/Source/VaultRecordSet.hpp
index 49aa8d6..b854fa7 100644
--- a/Source/VaultRecordSet.hpp
+++ b/Source/VaultRecordSet.hpp
@@ -23,13 +23,14 @@ namespace mvlt
             }
             else
             {
+                // Detach vaultRecordSet from another vault before ParentVault is locked, so two vaults are never locked together
+                if (vaultRecordSet.ParentVault != ParentVault) vaultRecordSet.Reset();
+
                 ReadLock<RecursiveReadWriteMutex> readLock(ParentVault->RecursiveReadWriteMtx);
 
                 // Remove old data from vaultRecordSet
                 if (vaultRecordSet.ParentVault != ParentVault)
                 {
-                    vaultRecordSet.Reset();
-
                     // Set new parent vault to vaultRecordSet
                     vaultRecordSet.ParentVault = ParentVault;
 
@@ -208,13 +209,14 @@ namespace mvlt
             }
             else
             {
+                // Detach vaultRecordSet from another vault before ParentVault is locked, so two vaults are never locked together
+                if (vaultRecordSet.ParentVault != ParentVault) vaultRecordSet.Reset();
+
                 ReadLock<RecursiveReadWriteMutex> readLock(ParentVault->RecursiveReadWriteMtx);
 
                 // Remove old data from vaultRecordSet
                 if (vaultRecordSet.ParentVault != ParentVault)
                 {
-                    vaultRecordSet.Reset();
-
                     // Set new parent vault to vaultRecordSet
                     vaultRecordSet.ParentVault = ParentVault;
 
-- 
2.43.0


From 636ea26eab8aa885cfc00b14ba836fee02b39e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:13 +0000
Subject: [PATCH 25/62] fix: a new unique bool key stores bool values in the
 records

---
 Source/Vault.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Source/Vault.hpp b/Source/Vault.hpp
index 3718fc1..bddab04 100644
--- a/Source/Vault.hpp
+++ b/Source/Vault.hpp
@@ -398,9 +398,12 @@ namespace mvlt
                 counter = 0;
                 for (VaultRecord* recordsSetIt : RecordsSet)
                 {
-                    TtoVaultRecordMap->Emplace(cachedData[counter], recordsSetIt);
+                    // std::vector<bool> does not store values of type T
+                    const T& value = cachedData[counter];
+
+                    TtoVaultRecordMap->Emplace(value, recordsSetIt);
                     if (VaultDerivedClass == VaultDerivedClasses::VaultBase)
-                        recordsSetIt->SetData(key, cachedData[counter]);
+                        recordsSetIt->SetData(key, value);
 
                     ++counter;
                 }
-- 
2.43.0


From 67af3d95149dbdea1532568933911c586f92eaf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:31 +0000
Subject: [PATCH 26/62] fix: a set copied or moved from a set without a vault
 is still a set

---
 Source/VaultRecordSet.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Source/VaultRecordSet.cpp b/Source/VaultRecordSet.cpp
index 59705fc..531fe6a 100644
--- a/Source/VaultRecordSet.cpp
+++ b/Source/VaultRecordSet.cpp
@@ -64,6 +64,9 @@ namespace mvlt
     {
         DBG_LOG_ENTER();
 
+        VaultDerivedClass = VaultDerivedClasses::VaultRecordSetDerived;
+        RecursiveReadWriteMtx.Disable();
+
         if (other.GetIsParentVaultValid())
             CopySet(other);
     }
@@ -86,6 +89,9 @@ namespace mvlt
     {
         DBG_LOG_ENTER();
 
+        VaultDerivedClass = VaultDerivedClasses::VaultRecordSetDerived;
+        RecursiveReadWriteMtx.Disable();
+
         if (other.GetIsParentVaultValid())
             MoveSet(std::move(other));
     }
-- 
2.43.0


From 718229cf44c595c3ba0009d46b7eaa65b30e2c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:45 +0000
Subject: [PATCH 27/62] fix: the csv reader keeps empty last and quoted empty
 fields

---
 Source/CsvParser/CsvParser.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/Source/CsvParser/CsvParser.cpp b/Source/CsvParser/CsvParser.cpp
index 3969a08..f62715c 100644
--- a/Source/CsvParser/CsvParser.cpp
+++ b/Source/CsvParser/CsvParser.cpp
@@ -47,6 +47,9 @@ namespace mvlt
         // Is escaping flag
         bool isEscaping = false;
 
+        // Was the current field quoted. A quoted field may be empty
+        bool isQuoted = false;
+
         // Record pole
         std::string recordPole;
 
@@ -61,7 +64,7 @@ namespace mvlt
                 if (!isEscaping && (FileReader.GetChar() == 13 || FileReader.GetChar() == 10 )) // 13 - CR or 0d. 10 - LF or 0a.
                 {
                     // Add last record
-                    if (!recordPole.empty())
+                    if (!recordPole.empty() || isQuoted || !vectorWithNext.empty())
                         vectorWithNext.emplace_back(std::move(recordPole));
 
                     // Check if it is CRLF.
@@ -80,6 +83,7 @@ namespace mvlt
                     {
                         // Start escaping
                         isEscaping = true;
+                        isQuoted = true;
                         recordPole.clear();
                         continue;
                     }
@@ -103,6 +107,7 @@ namespace mvlt
                     // Set new record pole to record
                     vectorWithNext.emplace_back(std::move(recordPole));
                     recordPole.clear();
+                    isQuoted = false;
                     continue;
                 }
                 
@@ -112,7 +117,7 @@ namespace mvlt
         }
 
         // Add last record
-        if (!recordPole.empty())
+        if (!recordPole.empty() || isQuoted || !vectorWithNext.empty())
             vectorWithNext.emplace_back(std::move(recordPole));
 
         if (!vectorWithNext.empty())
-- 
2.43.0


From 092124b1a28607c2f76cfe343297b733a24876ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:48 +0000
Subject: [PATCH 28/62] fix: two LF in a csv file are two line ends

---
 Source/CsvParser/CsvParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/CsvParser/CsvParser.cpp b/Source/CsvParser/CsvParser.cpp
index f62715c..af1fcc7 100644
--- a/Source/CsvParser/CsvParser.cpp
+++ b/Source/CsvParser/CsvParser.cpp
@@ -68,7 +68,7 @@ namespace mvlt
                         vectorWithNext.emplace_back(std::move(recordPole));
 
                     // Check if it is CRLF.
-                    if (FileReader.GetCurrentPos() < FileReader.GetFileSize() - 1 && FileReader.GetNextChar() == 10)
+                    if (FileReader.GetChar() == 13 && FileReader.GetCurrentPos() < FileReader.GetFileSize() - 1 && FileReader.GetNextChar() == 10)
                         FileReader.Move();
 
                     FileReader.Move();
-- 
2.43.0


From 5e53adacd8a6e0f2d09278833aafa83518bc0aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:02 +0000
Subject: [PATCH 29/62] fix: values with the separator or CR are quoted in csv
 files

---
 Source/CsvParser/CsvParser.cpp | 7 +++++--
 Source/CsvParser/CsvParser.h   | 3 ++-
 Source/Vault.cpp               | 4 ++--
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/Source/CsvParser/CsvParser.cpp b/Source/CsvParser/CsvParser.cpp
index af1fcc7..de27959 100644
--- a/Source/CsvParser/CsvParser.cpp
+++ b/Source/CsvParser/CsvParser.cpp
@@ -2,7 +2,7 @@
 
 namespace mvlt
 {
-    std::string FormatStringToCsv(const std::string& str) noexcept
+    std::string FormatStringToCsv(const std::string& str, const std::string& separator) noexcept
     {
         bool isEscapingRequired = false;
         std::string res;
@@ -19,7 +19,10 @@ namespace mvlt
             if (symbol == ',')
                 isEscapingRequired = true;
 
-            if (symbol == '\n')
+            if (symbol == '\n' || symbol == '\r')
+                isEscapingRequired = true;
+
+            if (separator.find(symbol) != std::string::npos)
                 isEscapingRequired = true;
 
             res += symbol;
diff --git a/Source/CsvParser/CsvParser.h b/Source/CsvParser/CsvParser.h
index 308a38c..28303dd 100644
--- a/Source/CsvParser/CsvParser.h
+++ b/Source/CsvParser/CsvParser.h
@@ -30,10 +30,11 @@ namespace mvlt
         - "  - a quotation mark to end escaping
 
         \param [in] str the string to be converted
+        \param [in] separator the symbol that separates the fields in the file
 
         \return returns a string in csv format
     */
-    std::string FormatStringToCsv(const std::string& str) noexcept;
+    std::string FormatStringToCsv(const std::string& str, const std::string& separator = ",") noexcept;
 
     /// \brief A class for parsing csv files that provides data in a form similar to generators
     class CsvParser
diff --git a/Source/Vault.cpp b/Source/Vault.cpp
index 9a89803..d828dab 100644
--- a/Source/Vault.cpp
+++ b/Source/Vault.cpp
@@ -982,7 +982,7 @@ namespace mvlt
                 {
                     std::string data;
                     record->GetDataAsString(key, data);
-                    csvFile << FormatStringToCsv(data);
+                    csvFile << FormatStringToCsv(data, separator);
 
                     // Checking not to write a comma to the end of the line
                     if (counter == 1) break;
@@ -1002,7 +1002,7 @@ namespace mvlt
                 {
                     std::string data;
                     record->GetDataAsString(key, data);
-                    csvFile << FormatStringToCsv(data);
+                    csvFile << FormatStringToCsv(data, separator);
 
                     // Checking not to write a comma to the end of the line
                     if (counter == 1) break;
-- 
2.43.0


From 32371d948b1229607d521fdf1f445f00aab42e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:09 +0000
Subject: [PATCH 30/62] fix: key names are quoted in csv files

---
 Source/Vault.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Source/Vault.cpp b/Source/Vault.cpp
index d828dab..ace8485 100644
--- a/Source/Vault.cpp
+++ b/Source/Vault.cpp
@@ -955,18 +955,18 @@ namespace mvlt
             if (keys.empty())
             {
                 auto keysOrderIt = KeysOrder.cbegin();
-                csvFile << *keysOrderIt;
+                csvFile << FormatStringToCsv(*keysOrderIt, separator);
                 ++keysOrderIt;
-                for (;keysOrderIt != KeysOrder.cend(); ++keysOrderIt) csvFile << separator << *keysOrderIt;
+                for (;keysOrderIt != KeysOrder.cend(); ++keysOrderIt) csvFile << separator << FormatStringToCsv(*keysOrderIt, separator);
                 if (KeysOrder.size() != 0)
                     csvFile.write(endOfLine, 2);
             }
             else 
             {
                 auto keysOrderIt = keys.cbegin();
-                csvFile << *keysOrderIt;
+                csvFile << FormatStringToCsv(*keysOrderIt, separator);
                 ++keysOrderIt;
-                for (;keysOrderIt != keys.cend(); ++keysOrderIt) csvFile << separator << *keysOrderIt;
+                for (;keysOrderIt != keys.cend(); ++keysOrderIt) csvFile << separator << FormatStringToCsv(*keysOrderIt, separator);
                 if (KeysOrder.size() != 0)
                     csvFile.write(endOfLine, 2);
             }
-- 
2.43.0


From d9397941cf622c510df14a38605c3e43de090a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:12 +0000
Subject: [PATCH 31/62] hook: small csv block sizes under MVAULT_VERIF

---
 Source/CsvParser/StreamFileReader.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Source/CsvParser/StreamFileReader.h b/Source/CsvParser/StreamFileReader.h
index 6c5fb50..aa489bd 100644
--- a/Source/CsvParser/StreamFileReader.h
+++ b/Source/CsvParser/StreamFileReader.h
@@ -5,8 +5,14 @@
 #include <iostream>
 
 // BIG_FILE_SIZE must be greater then FILE_BLOCK_SIZE
+#ifndef MVAULT_VERIF
 #define FILE_BLOCK_SIZE 4096
 #define BIG_FILE_SIZE 10485760
+#else
+// Small limits let verification reach the block reading with small files
+#define FILE_BLOCK_SIZE 16
+#define BIG_FILE_SIZE 64
+#endif
 
 namespace mvlt
 {
-- 
2.43.0


From 81d9f5379047d1760b53163f785b41920631ec7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:24 +0000
Subject: [PATCH 32/62] fix: unsigned integers are read as unsigned

---
 Source/Strings/FromString.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Source/Strings/FromString.h b/Source/Strings/FromString.h
index 4a2b38f..2440e44 100644
--- a/Source/Strings/FromString.h
+++ b/Source/Strings/FromString.h
@@ -302,7 +302,7 @@ namespace mvlt
     template <>
     inline bool FromString(const std::string& stringToCopyDataFrom, std::uint16_t& data) noexcept
     {
-        return FromStringSignedInt(stringToCopyDataFrom, data);
+        return FromStringUnsignedInt(stringToCopyDataFrom, data);
     }
 
     /**
@@ -318,7 +318,7 @@ namespace mvlt
     template <>
     inline bool FromString(const std::string& stringToCopyDataFrom, std::uint32_t& data) noexcept
     {
-        return FromStringSignedInt(stringToCopyDataFrom, data);
+        return FromStringUnsignedInt(stringToCopyDataFrom, data);
     }
 
     /**
@@ -334,7 +334,7 @@ namespace mvlt
     template <>
     inline bool FromString(const std::string& stringToCopyDataFrom, std::uint64_t& data) noexcept
     {
-        return FromStringSignedInt(stringToCopyDataFrom, data);
+        return FromStringUnsignedInt(stringToCopyDataFrom, data);
     }
 
     /**@} */
-- 
2.43.0


From c97c27ff60aee9d3e3572fb86272fc44ae9f17a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:31 +0000
Subject: [PATCH 33/62] fix: integers outside the range of the type are
 refused, not wrapped

---
 Source/Strings/FromString.h | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/Source/Strings/FromString.h b/Source/Strings/FromString.h
index 2440e44..7b87ec4 100644
--- a/Source/Strings/FromString.h
+++ b/Source/Strings/FromString.h
@@ -2,6 +2,7 @@
 
 #include <string>
 #include <cstdint>
+#include <limits>
 
 namespace mvlt
 {
@@ -198,13 +199,22 @@ namespace mvlt
         for (; i < stringToCopyDataFrom.length(); ++i)
         {
             if (stringToCopyDataFrom[i] < '0' || stringToCopyDataFrom[i] > '9') return false;
-            res *= 10;
-            res += static_cast<int>(stringToCopyDataFrom[i] - '0');
+            const T digit = static_cast<T>(stringToCopyDataFrom[i] - '0');
+
+            // A number outside the range of the type is not a number of this type
+            if (isNegative)
+            {
+                if (res < (std::numeric_limits<T>::min() + digit) / 10) return false;
+                res = static_cast<T>(res * 10 - digit);
+            }
+            else
+            {
+                if (res > (std::numeric_limits<T>::max() - digit) / 10) return false;
+                res = static_cast<T>(res * 10 + digit);
+            }
         }
 
-        // codechecker_intentional [all] its not error because negative numbers handled by if
-        if (isNegative) data = res * -1;
-        else data = res;
+        data = res;
 
         return true;
     }
@@ -281,8 +291,11 @@ namespace mvlt
         for (std::size_t i = 0; i < stringToCopyDataFrom.length(); ++i)
         {
             if (stringToCopyDataFrom[i] < '0' || stringToCopyDataFrom[i] > '9') return false;
-            res *= 10;
-            res += static_cast<int>(stringToCopyDataFrom[i] - '0');
+            const T digit = static_cast<T>(stringToCopyDataFrom[i] - '0');
+
+            // A number outside the range of the type is not a number of this type
+            if (res > (std::numeric_limits<T>::max() - digit) / 10) return false;
+            res = static_cast<T>(res * 10 + digit);
         }
 
         data = res;
-- 
2.43.0


From 697ddccc69d4969a96506548aa9fa581131aa8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:08 +0000
Subject: [PATCH 34/62] fix: std::int8_t and std::uint8_t are read from strings

---
 Source/Strings/FromString.h | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/Source/Strings/FromString.h b/Source/Strings/FromString.h
index 7b87ec4..17a666b 100644
--- a/Source/Strings/FromString.h
+++ b/Source/Strings/FromString.h
@@ -171,6 +171,7 @@ namespace mvlt
         \brief FromStringSignedInt template for working with all signed integers
 
         \tparam <T> signed integer as a type
+        \tparam <std::int8_t> std::int8_t int as a type
         \tparam <std::int16_t> std::int16_t int as a type
         \tparam <std::int32_t> std::int32_t int as a type
         \tparam <std::int64_t> std::int64_t int as a type
@@ -219,6 +220,22 @@ namespace mvlt
         return true;
     }
 
+    /**
+        \brief FromString specialization for working with std::int8_t
+
+        \tparam <std::int8_t> int as a type
+
+        \param [in] stringToCopyDataFrom the string to be converted to type int
+        \param [out] data the variable where the converted string will be written
+
+        \return Returns true if the conversion was successful, otherwise it returns false
+    */
+    template <>
+    inline bool FromString(const std::string& stringToCopyDataFrom, std::int8_t& data) noexcept
+    {
+        return FromStringSignedInt(stringToCopyDataFrom, data);
+    }
+
     /**
         \brief FromString specialization for working with std::int16_t int
 
@@ -302,6 +319,22 @@ namespace mvlt
         return true;
     }
 
+    /**
+        \brief FromString specialization for working with std::uint8_t
+
+        \tparam <std::uint8_t> int as a type
+
+        \param [in] stringToCopyDataFrom the string to be converted to type int
+        \param [out] data the variable where the converted string will be written
+
+        \return Returns true if the conversion was successful, otherwise it returns false
+    */
+    template <>
+    inline bool FromString(const std::string& stringToCopyDataFrom, std::uint8_t& data) noexcept
+    {
+        return FromStringUnsignedInt(stringToCopyDataFrom, data);
+    }
+
     /**
         \brief FromString specialization for working with std::uint16_t
 
-- 
2.43.0


From 7d082e669650ad2b81380b45bc8985f36a4b2387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:25 +0000
Subject: [PATCH 35/62] fix: float and double are read without integer overflow
 and exactly

---
 Source/Strings/FromString.h | 43 ++++++++++++++-----------------------
 1 file changed, 16 insertions(+), 27 deletions(-)

diff --git a/Source/Strings/FromString.h b/Source/Strings/FromString.h
index 17a666b..2992b7c 100644
--- a/Source/Strings/FromString.h
+++ b/Source/Strings/FromString.h
@@ -3,6 +3,8 @@
 #include <string>
 #include <cstdint>
 #include <limits>
+#include <locale>
+#include <sstream>
 
 namespace mvlt
 {
@@ -93,45 +95,32 @@ namespace mvlt
     template <class T>
     inline bool FromStringDoubleAndFloat(const std::string& stringToCopyDataFrom, T& data) noexcept
     {
-        if (stringToCopyDataFrom.length() == 0) return false;
+        std::size_t i = 0, digits = 0;
 
-        int integer = 0, fractional = 0;
+        if (!stringToCopyDataFrom.empty() && stringToCopyDataFrom[0] == '-') i = 1;
 
-        std::size_t i = 0;
-        bool isNegative = false;
-
-        if (stringToCopyDataFrom[0] == '-' && stringToCopyDataFrom.length() > 1)
+        for (bool isFractional = false; i < stringToCopyDataFrom.length(); ++i)
         {
-            isNegative = true;
-            i = 1;
-        }
-
-        for (; i < stringToCopyDataFrom.length(); ++i)
-        {
-            if (stringToCopyDataFrom[i] == '.')
+            if (stringToCopyDataFrom[i] == '.' && !isFractional)
             {
-                ++i;
-                break;
+                isFractional = true;
+                continue;
             }
 
             if (stringToCopyDataFrom[i] < '0' || stringToCopyDataFrom[i] > '9') return false;
-            integer *= 10;
-            integer += static_cast<int>(stringToCopyDataFrom[i] - '0');
+            ++digits;
         }
 
-        T coeff = 1;
-        for (; i < stringToCopyDataFrom.length(); ++i)
-        {
-            if (stringToCopyDataFrom[i] < '0' || stringToCopyDataFrom[i] > '9') return false;
-            coeff /= 10;
-            fractional *= 10;
-            fractional += static_cast<int>(stringToCopyDataFrom[i] - '0');
-        }
+        if (digits == 0) return false;
 
-        data = static_cast<T>(integer) + static_cast<T>(fractional) * coeff;
+        // The stream uses the classic locale, so the fractional part is always separated by a dot
+        std::istringstream stream(stringToCopyDataFrom);
+        stream.imbue(std::locale::classic());
 
-        if (isNegative) data *= -1;
+        T res = 0;
+        if (!(stream >> res)) return false;
 
+        data = res;
         return true;
     }
 
-- 
2.43.0


From d939ae4c0911ac164fa176f1bd2e79cac349b2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:30 +0000
Subject: [PATCH 36/62] fix: saving a vault without keys does not read past the
 key list

---
 Source/Vault.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/Source/Vault.cpp b/Source/Vault.cpp
index ace8485..da1dc10 100644
--- a/Source/Vault.cpp
+++ b/Source/Vault.cpp
@@ -955,11 +955,13 @@ namespace mvlt
             if (keys.empty())
             {
                 auto keysOrderIt = KeysOrder.cbegin();
-                csvFile << FormatStringToCsv(*keysOrderIt, separator);
-                ++keysOrderIt;
-                for (;keysOrderIt != KeysOrder.cend(); ++keysOrderIt) csvFile << separator << FormatStringToCsv(*keysOrderIt, separator);
-                if (KeysOrder.size() != 0)
+                if (keysOrderIt != KeysOrder.cend())
+                {
+                    csvFile << FormatStringToCsv(*keysOrderIt, separator);
+                    ++keysOrderIt;
+                    for (;keysOrderIt != KeysOrder.cend(); ++keysOrderIt) csvFile << separator << FormatStringToCsv(*keysOrderIt, separator);
                     csvFile.write(endOfLine, 2);
+                }
             }
             else 
             {
-- 
2.43.0


From 0a8e4d0bc81ca8b78d65d0b778a058514c63ddb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:36 +0000
Subject: [PATCH 37/62] fix: a single empty csv field is not written as a blank
 line

---
 Source/Vault.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/Source/Vault.cpp b/Source/Vault.cpp
index da1dc10..a0d0f89 100644
--- a/Source/Vault.cpp
+++ b/Source/Vault.cpp
@@ -949,6 +949,13 @@ namespace mvlt
         // C array to store correct new line characters. 
         const char endOfLine[2] = {13, 10}; // 13 - CR or 0d. 10 - LF or 0a.
 
+        // A line with a single empty field is written as a quoted field, because a blank line has no fields
+        const bool isSingleColumn = (keys.empty() ? KeysOrder.size() : keys.size()) == 1;
+        const auto toCsv = [&](const std::string& str)
+        {
+            return isSingleColumn && str.empty() ? std::string("\"\"") : FormatStringToCsv(str, separator);
+        };
+
         // Save keys to file
         if (isSaveKey)
         {
@@ -957,18 +964,18 @@ namespace mvlt
                 auto keysOrderIt = KeysOrder.cbegin();
                 if (keysOrderIt != KeysOrder.cend())
                 {
-                    csvFile << FormatStringToCsv(*keysOrderIt, separator);
+                    csvFile << toCsv(*keysOrderIt);
                     ++keysOrderIt;
-                    for (;keysOrderIt != KeysOrder.cend(); ++keysOrderIt) csvFile << separator << FormatStringToCsv(*keysOrderIt, separator);
+                    for (;keysOrderIt != KeysOrder.cend(); ++keysOrderIt) csvFile << separator << toCsv(*keysOrderIt);
                     csvFile.write(endOfLine, 2);
                 }
             }
             else 
             {
                 auto keysOrderIt = keys.cbegin();
-                csvFile << FormatStringToCsv(*keysOrderIt, separator);
+                csvFile << toCsv(*keysOrderIt);
                 ++keysOrderIt;
-                for (;keysOrderIt != keys.cend(); ++keysOrderIt) csvFile << separator << FormatStringToCsv(*keysOrderIt, separator);
+                for (;keysOrderIt != keys.cend(); ++keysOrderIt) csvFile << separator << toCsv(*keysOrderIt);
                 if (KeysOrder.size() != 0)
                     csvFile.write(endOfLine, 2);
             }
@@ -984,7 +991,7 @@ namespace mvlt
                 {
                     std::string data;
                     record->GetDataAsString(key, data);
-                    csvFile << FormatStringToCsv(data, separator);
+                    csvFile << toCsv(data);
 
                     // Checking not to write a comma to the end of the line
                     if (counter == 1) break;
@@ -1004,7 +1011,7 @@ namespace mvlt
                 {
                     std::string data;
                     record->GetDataAsString(key, data);
-                    csvFile << FormatStringToCsv(data, separator);
+                    csvFile << toCsv(data);
 
                     // Checking not to write a comma to the end of the line
                     if (counter == 1) break;
-- 
2.43.0


From 0020e3a15e194ea2dd9eea684bbbd3cc5f8dc69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:43 +0000
Subject: [PATCH 38/62] fix: csv rows with more fields than keys do not read
 past the key list

---
 Source/Vault.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Source/Vault.cpp b/Source/Vault.cpp
index a0d0f89..74e63ce 100644
--- a/Source/Vault.cpp
+++ b/Source/Vault.cpp
@@ -110,6 +110,9 @@ namespace mvlt
                     // Store all keys values to record
                     for (const auto& recordPole : record)
                     {
+                        // There may be more fields in the file than keys
+                        if (keyOrderIt == KeysOrder.end()) break;
+
                         // Set last record pole
                         isCorrectRecordInFile = newRecord->SetDataFromString(*keyOrderIt, recordPole);
 
-- 
2.43.0


From 521825f40c1d6b992e9c2deb9124cb119174447a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:21 +0000
Subject: [PATCH 39/62] fix: strings and key names are escaped in json

---
 Source/Strings/ToJson.cpp | 34 +++++++++++++++++++++++++++++++++-
 Source/Strings/ToJson.h   | 11 ++++++++++-
 Source/Vault.cpp          |  4 ++--
 Source/VaultRecordRef.cpp |  2 +-
 4 files changed, 46 insertions(+), 5 deletions(-)

diff --git a/Source/Strings/ToJson.cpp b/Source/Strings/ToJson.cpp
index 8ee39dc..3b59b0a 100644
--- a/Source/Strings/ToJson.cpp
+++ b/Source/Strings/ToJson.cpp
@@ -20,13 +20,45 @@ namespace mvlt
             return true;
     }
 
+    std::string ToJsonString(const std::string& str)
+    {
+        static const char hexDigits[] = "0123456789abcdef";
+        std::string res = "\"";
+
+        for (const char& c : str)
+        {
+            switch (c)
+            {
+            case '"': res += "\\\""; break;
+            case '\\': res += "\\\\"; break;
+            case '\b': res += "\\b"; break;
+            case '\f': res += "\\f"; break;
+            case '\n': res += "\\n"; break;
+            case '\r': res += "\\r"; break;
+            case '\t': res += "\\t"; break;
+            default:
+                if (static_cast<unsigned char>(c) < 0x20)
+                {
+                    res += "\\u00";
+                    res += hexDigits[static_cast<unsigned char>(c) >> 4];
+                    res += hexDigits[static_cast<unsigned char>(c) & 0xf];
+                }
+                else
+                    res += c;
+                break;
+            }
+        }
+
+        return res + "\"";
+    }
+
     std::string ToJson(const DataSaver& dataSaver)
     {
         std::string res;
         std::type_index dataType = dataSaver.GetDataType();
 
         if (IsQuotedJsonType(dataType))
-            res = "\"" + dataSaver.Str() + "\"";
+            res = ToJsonString(dataSaver.Str());
         else
             res = dataSaver.Str();
 
diff --git a/Source/Strings/ToJson.h b/Source/Strings/ToJson.h
index 066bbf3..b8b4218 100644
--- a/Source/Strings/ToJson.h
+++ b/Source/Strings/ToJson.h
@@ -13,6 +13,15 @@ namespace mvlt
     */
     bool IsQuotedJsonType(const std::type_index& dataType);
 
+    /**
+        \brief A function for writing a string as a json string: with quotation marks around and with the special characters escaped
+
+        \param [in] str string to write
+
+        \return json string
+    */
+    std::string ToJsonString(const std::string& str);
+
     /**
         \brief Method for convert DataSaver to json string
 
@@ -37,7 +46,7 @@ namespace mvlt
         std::string res;
 
         if (IsQuotedJsonType(typeid(T)))
-            res = "\"" + ToString(data) + "\"";
+            res = ToJsonString(ToString(data));
         else
             res = ToString(data);
 
diff --git a/Source/Vault.cpp b/Source/Vault.cpp
index 74e63ce..1c97f14 100644
--- a/Source/Vault.cpp
+++ b/Source/Vault.cpp
@@ -713,7 +713,7 @@ namespace mvlt
             if (!isArray)
             {
                 if (isUseRecordTemplate)
-                    res << "\"" << recordTemplate << counter << "\":";
+                    res << ToJsonString(recordTemplate + std::to_string(counter)) << ":";
                 else
                     res << "\"" << record << "\":";
             }
@@ -731,7 +731,7 @@ namespace mvlt
                 DataSaver dataSaver;
                 record->GetDataSaver(key, dataSaver);
 
-                res << "\"" << key << "\":";
+                res << ToJsonString(key) << ":";
 
                 if (isFormat) res << " ";
                 res << mvlt::ToJson(dataSaver);
diff --git a/Source/VaultRecordRef.cpp b/Source/VaultRecordRef.cpp
index 665de17..893ca97 100644
--- a/Source/VaultRecordRef.cpp
+++ b/Source/VaultRecordRef.cpp
@@ -314,7 +314,7 @@ namespace mvlt
                     DataSaver dataSaver;
                     VaultRecordPtr->GetDataSaver(key, dataSaver);
 
-                    res += "\"" + key + "\":";
+                    res += ToJsonString(key) + ":";
 
                     if (isFormat) res += " ";
                     res += mvlt::ToJson(dataSaver);
-- 
2.43.0


From 68de07cd1c798b31d215c38bdbb445b18c10833b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:59 +0000
Subject: [PATCH 40/62] fix: infinity and nan are null in json

---
 Source/Strings/ToJson.cpp | 12 ++++++++++++
 Source/Strings/ToJson.h   | 12 ++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/Source/Strings/ToJson.cpp b/Source/Strings/ToJson.cpp
index 3b59b0a..9513238 100644
--- a/Source/Strings/ToJson.cpp
+++ b/Source/Strings/ToJson.cpp
@@ -52,6 +52,15 @@ namespace mvlt
         return res + "\"";
     }
 
+    std::string ToJsonFloat(const std::string& str)
+    {
+        // Infinity and nan can not be written as json numbers
+        if (str.find_first_of("in") != std::string::npos)
+            return "null";
+        else
+            return str;
+    }
+
     std::string ToJson(const DataSaver& dataSaver)
     {
         std::string res;
@@ -62,6 +71,9 @@ namespace mvlt
         else
             res = dataSaver.Str();
 
+        if (dataType == typeid(float) || dataType == typeid(double))
+            res = ToJsonFloat(res);
+
         return res;
     }
 }
\ No newline at end of file
diff --git a/Source/Strings/ToJson.h b/Source/Strings/ToJson.h
index b8b4218..42dc5ac 100644
--- a/Source/Strings/ToJson.h
+++ b/Source/Strings/ToJson.h
@@ -22,6 +22,15 @@ namespace mvlt
     */
     std::string ToJsonString(const std::string& str);
 
+    /**
+        \brief A function for writing a floating point number as a json value
+
+        \param [in] str number converted to a string
+
+        \return json number, or null if the number is infinity or nan
+    */
+    std::string ToJsonFloat(const std::string& str);
+
     /**
         \brief Method for convert DataSaver to json string
 
@@ -50,6 +59,9 @@ namespace mvlt
         else
             res = ToString(data);
 
+        if (std::type_index(typeid(T)) == typeid(float) || std::type_index(typeid(T)) == typeid(double))
+            res = ToJsonFloat(res);
+
         return res;
     }
 }
\ No newline at end of file
-- 
2.43.0


From 1fdf1f3af0fa4a31fc7b805bb6c07b71447522ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:17 +0000
Subject: [PATCH 41/62] fix: a DataSaver assigned from an empty one is empty

---
 Source/DataSaver.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Source/DataSaver.cpp b/Source/DataSaver.cpp
index 4029dab..9e436a6 100644
--- a/Source/DataSaver.cpp
+++ b/Source/DataSaver.cpp
@@ -46,6 +46,12 @@ namespace mvlt
             {
                 // If other is empty clear the variables
                 Ptr = nullptr;
+                DataType = typeid(void);
+                CopyFunc = nullptr;
+                DeleteFunc = nullptr;
+                ToStringFunc = nullptr;
+                CustomDeleteFunc = nullptr;
+                SetDataFromStringFunc = nullptr;
             }
         }
 
-- 
2.43.0


From 956c68afaed73d404b3058b5b6268295e082d065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:23 +0000
Subject: [PATCH 42/62] fix: strings of an empty DataSaver do not call a null
 function

---
 Source/DataSaver.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/Source/DataSaver.cpp b/Source/DataSaver.cpp
index 9e436a6..a2cd2d0 100644
--- a/Source/DataSaver.cpp
+++ b/Source/DataSaver.cpp
@@ -60,6 +60,10 @@ namespace mvlt
 
     bool DataSaver::SetDataFromString(const std::string& data) noexcept
     {
+        // There is no type to read the string as if the DataSaver is empty
+        if (Ptr == nullptr)
+            return false;
+
         return SetDataFromStringFunc(Ptr, data);
     }
 
@@ -92,6 +96,9 @@ namespace mvlt
 
     std::string DataSaver::Str() const noexcept
     {
+        if (Ptr == nullptr)
+            return "";
+
         return ToStringFunc(Ptr);
     }
 
-- 
2.43.0


From 56cca1ae7004aca1b78218f24453c86d0906b78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:06 +0000
Subject: [PATCH 43/62] fix: a save that could not write all the data fails

---
 Source/Vault.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Source/Vault.cpp b/Source/Vault.cpp
index 1c97f14..d92bde1 100644
--- a/Source/Vault.cpp
+++ b/Source/Vault.cpp
@@ -1027,7 +1027,9 @@ namespace mvlt
             }
         }
 
-        return true;
+        // The data was written only if it reached the file
+        csvFile.close();
+        return csvFile.good();
     }
 
     bool Vault::ReadFile(const std::string& fileName, const char& separator, const bool& isLoadKeys, const std::vector<std::string>& keys) noexcept
-- 
2.43.0


From 8b3ab9cf53384f6ab01819a1c5f0325934fe8ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:10 +0000
Subject: [PATCH 44/62] fix: a directory is not opened as a csv file

---
 Source/CsvParser/StreamFileReader.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Source/CsvParser/StreamFileReader.cpp b/Source/CsvParser/StreamFileReader.cpp
index a5567a8..4dfada4 100644
--- a/Source/CsvParser/StreamFileReader.cpp
+++ b/Source/CsvParser/StreamFileReader.cpp
@@ -36,6 +36,14 @@ namespace mvlt
                     NextChar = Data[1];
             }
         }
+
+        // A directory can be opened but not read
+        if (!File.good())
+        {
+            File.close();
+            FileSize = 0;
+            return false;
+        }
         
         return true; 
     }
-- 
2.43.0


From 093788eb9125e251afa864a475253332cfbc2468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:53 +0000
Subject: [PATCH 45/62] fix: a cell without data is printed empty

---
 Source/Strings/PrintAsTable.h | 2 ++
 Source/Vault.cpp              | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/Source/Strings/PrintAsTable.h b/Source/Strings/PrintAsTable.h
index b03e5aa..003f476 100644
--- a/Source/Strings/PrintAsTable.h
+++ b/Source/Strings/PrintAsTable.h
@@ -51,6 +51,7 @@ namespace mvlt
         {
             for (const auto& record : container)
             {
+                dataString.clear();
                 record.GetDataAsString((*realKeys)[i], dataString);
                 if (dataString.length() > maxLengths[i]) maxLengths[i] = dataString.length();
             }
@@ -93,6 +94,7 @@ namespace mvlt
             std::cout << "|";
             for (std::size_t i = 0; i < realKeys->size(); ++i)
             {
+                dataString.clear();
                 record.GetDataAsString((*realKeys)[i], dataString);
                 std::cout << " " << dataString;
                 for (std::size_t j = dataString.length(); j < maxLengths[i]; ++j) std::cout << " ";
diff --git a/Source/Vault.cpp b/Source/Vault.cpp
index d92bde1..2bd67d4 100644
--- a/Source/Vault.cpp
+++ b/Source/Vault.cpp
@@ -838,6 +838,7 @@ namespace mvlt
         {
             for (const auto& record : RecordsSet)
             {
+                dataString.clear();
                 record->GetDataAsString(key, dataString);
                 if (dataString.length() > maxLengths[counter]) maxLengths[counter] = dataString.length();   
             }
@@ -893,6 +894,7 @@ namespace mvlt
             std::cout << "|";
             for (const std::string& key : *keysList)
             {
+                dataString.clear();
                 record.GetDataAsString(key, dataString);
                 std::cout << " " << dataString;
                 for (std::size_t j = dataString.length(); j < maxLengths[counter]; ++j) std::cout << " ";
-- 
2.43.0


From b478fb26d88a2b9be8e4d3cd338c4ad3ce1cd71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:31 +0000
Subject: [PATCH 46/62] fix: PrintAsTable with zero records prints no records

---
 Source/Strings/PrintAsTable.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Source/Strings/PrintAsTable.h b/Source/Strings/PrintAsTable.h
index 003f476..ff45e55 100644
--- a/Source/Strings/PrintAsTable.h
+++ b/Source/Strings/PrintAsTable.h
@@ -91,6 +91,8 @@ namespace mvlt
         std::size_t counter = 0;
         for (const auto& record : container)
         {
+            if (counter == amountOfRecords) break;
+
             std::cout << "|";
             for (std::size_t i = 0; i < realKeys->size(); ++i)
             {
@@ -106,7 +108,6 @@ namespace mvlt
                 std::cout << "\n";
 
             ++counter;
-            if (counter == amountOfRecords) break;
         }
 
         // Print splitter
-- 
2.43.0


From d0d8d3d321db616a43359cebb4e5171d70383d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:04 +0000
Subject: [PATCH 47/62] fix: VaultRecordSet::Clear locks the parent vault

---
 Source/VaultRecordSet.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Source/VaultRecordSet.cpp b/Source/VaultRecordSet.cpp
index 531fe6a..18bd0f6 100644
--- a/Source/VaultRecordSet.cpp
+++ b/Source/VaultRecordSet.cpp
@@ -244,6 +244,8 @@ namespace mvlt
 
         if (GetIsParentVaultValid())
         {
+            ReadLock<RecursiveReadWriteMutex> readLock(ParentVault->RecursiveReadWriteMtx);
+
             // Remove this from records
             for (VaultRecord* record : RecordsSet)
                 record->EraseDependentSet(this);
-- 
2.43.0


From 6a1030298e70d975d60f04ea00dd7c6405bfcb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:10 +0000
Subject: [PATCH 48/62] fix: comparing record sets locks the parent vault

---
 Source/VaultRecordSet.cpp | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/Source/VaultRecordSet.cpp b/Source/VaultRecordSet.cpp
index 18bd0f6..a534a79 100644
--- a/Source/VaultRecordSet.cpp
+++ b/Source/VaultRecordSet.cpp
@@ -544,24 +544,20 @@ namespace mvlt
     {
         DBG_LOG_ENTER();
 
-        bool res = false;
+        if (a.ParentVault != b.ParentVault) return false;
 
-        if (a.ParentVault == b.ParentVault && a.RecordsSet == b.RecordsSet)
-            res = true;
+        // There are no records in sets without parent vault
+        if (!a.GetIsParentVaultValid()) return true;
 
-        return res;
+        ReadLock<RecursiveReadWriteMutex> readLock(a.ParentVault->RecursiveReadWriteMtx);
+        return a.RecordsSet == b.RecordsSet;
     }
 
     bool operator!=(const VaultRecordSet& a, const VaultRecordSet& b) noexcept
     {
         DBG_LOG_ENTER();
 
-        bool res = false;
-
-        if (a.ParentVault != b.ParentVault || a.RecordsSet != b.RecordsSet)
-            res = true;
-
-        return res;
+        return !(a == b);
     }
 
     VaultOperationResult Union(const VaultRecordSet& a, const VaultRecordSet& b, VaultRecordSet& res) noexcept
-- 
2.43.0


From 2f9dbb38bbe85f689049a979fbcdc4e6e34e5fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:17 +0000
Subject: [PATCH 49/62] fix: GetErrorsInLastReadedFile locks the vault

---
 Source/Vault.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Source/Vault.cpp b/Source/Vault.cpp
index 2bd67d4..d8fd7ac 100644
--- a/Source/Vault.cpp
+++ b/Source/Vault.cpp
@@ -1052,6 +1052,9 @@ namespace mvlt
     {
         DBG_LOG_ENTER();
 
+        // Lock Vault to read
+        ReadLock<RecursiveReadWriteMutex> readLock(RecursiveReadWriteMtx);
+
         return InvalidFileRecords;
     }
 
-- 
2.43.0


From f99b88a49e6bbddf9f115ad9203b49d6977dcb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:22 +0000
Subject: [PATCH 50/62] fix: keys of a record are read while the vault is
 locked

---
 Source/VaultRecordRef.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/Source/VaultRecordRef.cpp b/Source/VaultRecordRef.cpp
index 893ca97..be69339 100644
--- a/Source/VaultRecordRef.cpp
+++ b/Source/VaultRecordRef.cpp
@@ -233,7 +233,13 @@ namespace mvlt
 
         bool res = false;
 
-        if (IsValid()) res = VaultRecordPtr->Vlt->IsKeyExist(key);
+        if (IsValid())
+        {
+            ReadLock<RecursiveReadWriteMutex> readLock(VaultRecordPtr->Vlt->RecursiveReadWriteMtx);
+
+            // Check if Vault still accessable
+            if (VaultRecordPtr->GetIsValid()) res = VaultRecordPtr->Vlt->IsKeyExist(key);
+        }
 
         return res;
     }
@@ -244,8 +250,10 @@ namespace mvlt
 
         std::vector<std::string> res;
 
-        if (VaultRecordPtr != nullptr)
+        if (IsValid())
         {
+            ReadLock<RecursiveReadWriteMutex> readLock(VaultRecordPtr->Vlt->RecursiveReadWriteMtx);
+
             // Check if Vault still accessable
             if (VaultRecordPtr->GetIsValid())
                 res = VaultRecordPtr->Vlt->GetKeys();
-- 
2.43.0


From 6802dde70b7fc782d97b6b67a3dff09f92183927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:40 +0000
Subject: [PATCH 51/62] fix: the type of a value is the type it is stored as,
 not the one behind a reference to it

---
 Source/DataSaver.h        |  6 +++---
 Source/Vault.hpp          |  2 +-
 Source/VaultRecordSet.hpp | 12 ++++++------
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/Source/DataSaver.h b/Source/DataSaver.h
index 2db6d3a..84ce170 100644
--- a/Source/DataSaver.h
+++ b/Source/DataSaver.h
@@ -146,7 +146,7 @@ namespace mvlt
             Ptr = static_cast<void*>(new T(data));
 
             // Save data type to DataType
-            DataType = typeid(data);
+            DataType = typeid(T);
 
             // Set new CopyFunc. It is get to void pointers and convert void pointers to T pointers and copy data.
             CopyFunc = [](void*& dst, void* src)
@@ -193,9 +193,9 @@ namespace mvlt
         bool GetData(T& data) const noexcept
         {
             // Check data type stored in DataSaver
-            if (DataType != typeid(data))
+            if (DataType != typeid(T))
             {
-                std::cerr << "Wrong type! Was: " + std::string(DataType.name()) + " Requested: " + typeid(data).name() << "\n";
+                std::cerr << "Wrong type! Was: " + std::string(DataType.name()) + " Requested: " + typeid(T).name() << "\n";
                 return false;
             }
 
diff --git a/Source/Vault.hpp b/Source/Vault.hpp
index bddab04..408e263 100644
--- a/Source/Vault.hpp
+++ b/Source/Vault.hpp
@@ -595,7 +595,7 @@ namespace mvlt
 
         VaultOperationResult res;
         res.Key = key;
-        res.RequestedType = typeid(defaultKeyValue);
+        res.RequestedType = typeid(T);
 
         // Lock Vault to write
         WriteLock<RecursiveReadWriteMutex> writeLock(RecursiveReadWriteMtx);
diff --git a/Source/VaultRecordSet.hpp b/Source/VaultRecordSet.hpp
index b854fa7..6efd6d8 100644
--- a/Source/VaultRecordSet.hpp
+++ b/Source/VaultRecordSet.hpp
@@ -56,7 +56,7 @@ namespace mvlt
         else
         {
             res.Key = key;
-            res.RequestedType = typeid(beginKeyValue);
+            res.RequestedType = typeid(T);
             res.IsOperationSuccess = false;
             res.ResultCode = VaultOperationResultCode::ParentVaultNotValid;
         }
@@ -79,7 +79,7 @@ namespace mvlt
         else
         {
             res.Key = key;
-            res.RequestedType = typeid(defaultKeyValue);
+            res.RequestedType = typeid(T);
             res.IsOperationSuccess = false;
             res.ResultCode = VaultOperationResultCode::ParentVaultNotValid;
         }
@@ -103,7 +103,7 @@ namespace mvlt
         else
         {
             res.Key = key;
-            res.RequestedType = typeid(keyValue);
+            res.RequestedType = typeid(T);
             res.IsOperationSuccess = false;
             res.ResultCode = VaultOperationResultCode::ParentVaultNotValid;
         }
@@ -127,7 +127,7 @@ namespace mvlt
         else
         {
             res.Key = key;
-            res.RequestedType = typeid(keyValue);
+            res.RequestedType = typeid(T);
             res.IsOperationSuccess = false;
             res.ResultCode = VaultOperationResultCode::ParentVaultNotValid;
         }
@@ -267,7 +267,7 @@ namespace mvlt
         else
         {
             res.Key = key;
-            res.RequestedType = typeid(keyValue);
+            res.RequestedType = typeid(T);
             res.IsOperationSuccess = false;
             res.ResultCode = VaultOperationResultCode::ParentVaultNotValid;
         }
@@ -294,7 +294,7 @@ namespace mvlt
         else
         {
             res.Key = key;
-            res.RequestedType = typeid(keyValue);
+            res.RequestedType = typeid(T);
             res.IsOperationSuccess = false;
             res.ResultCode = VaultOperationResultCode::ParentVaultNotValid;
         }
-- 
2.43.0


From 498326f8785d44b6a3a594705790d6a6f07e07f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:58 +0000
Subject: [PATCH 52/62] Revert "fix: And of a greater and a less-or-equal
 request uses the interval of both": it changed no behaviour, only the way to
 the same result

---
 Source/VaultRequest.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/VaultRequest.hpp b/Source/VaultRequest.hpp
index 657bc46..01dcfcf 100644
--- a/Source/VaultRequest.hpp
+++ b/Source/VaultRequest.hpp
@@ -71,7 +71,7 @@ namespace mvlt
                 // Handle interval situation
                 if (request1.Key == request2.Key && request1.DataType == request2.DataType &&
                     (request1.RequestType == VaultRequestType::Greater || request1.RequestType == VaultRequestType::GreaterOrEqual) &&
-                    (request2.RequestType == VaultRequestType::Less || request2.RequestType == VaultRequestType::LessOrEqual))
+                    (request2.RequestType == VaultRequestType::Less || request1.RequestType == VaultRequestType::LessOrEqual))
                 {
                     request1.DataRequestFunc(request1.Key, vlt, vaultRecordSet, request1.DataPtr.get(), request2.DataPtr.get(), 
                         (request1.RequestType == VaultRequestType::GreaterOrEqual),
-- 
2.43.0


From a1a8c51d4cce655f572dba6542b4267e698c6ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:19 +0000
Subject: [PATCH 53/62] fix: a csv reader can open another file after the first
 one

---
 Source/CsvParser/StreamFileReader.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/Source/CsvParser/StreamFileReader.cpp b/Source/CsvParser/StreamFileReader.cpp
index 4dfada4..2473c8b 100644
--- a/Source/CsvParser/StreamFileReader.cpp
+++ b/Source/CsvParser/StreamFileReader.cpp
@@ -11,6 +11,15 @@ namespace mvlt
 
     bool StreamFileReader::Open(const std::string& fileName) noexcept
     {
+        // Forget the file that was opened before
+        File.close();
+        File.clear();
+        delete[] Data;
+        Data = nullptr;
+        FileSize = 0;
+        FilePos = 0;
+        ChunkPos = 1;
+
         File.open(fileName, std::ios::binary | std::ios::ate);
         if (!File.is_open()) return false;
 
-- 
2.43.0


From 209a96ccc6060176967ed6c610c000a51ed5af24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:24 +0000
Subject: [PATCH 54/62] fix: the path given to addr2line ends where it ends

---
 Source/BackTrace/BackTrace.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Source/BackTrace/BackTrace.cpp b/Source/BackTrace/BackTrace.cpp
index 351431f..9824518 100644
--- a/Source/BackTrace/BackTrace.cpp
+++ b/Source/BackTrace/BackTrace.cpp
@@ -46,7 +46,8 @@ namespace mvlt
                 char buf[BUFSIZ];
 
                 // codechecker_intentional [all] suppress
-                std::size_t readed = readlink("/proc/self/exe", buf, BUFSIZ);
+                ssize_t readed = readlink("/proc/self/exe", buf, BUFSIZ - 1);
+                buf[readed < 0 ? 0 : readed] = 0;
                 std::stringstream sstream;
                 sstream << std::hex << offset;
 
-- 
2.43.0


From 61b0b6778efd394082ff1c7539ef0c7b586dcbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:24 +0000
Subject: [PATCH 55/62] fix: the place of a call in an exported function is
 found too

---
 Source/BackTrace/BackTrace.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/Source/BackTrace/BackTrace.cpp b/Source/BackTrace/BackTrace.cpp
index 9824518..5c2d215 100644
--- a/Source/BackTrace/BackTrace.cpp
+++ b/Source/BackTrace/BackTrace.cpp
@@ -38,10 +38,7 @@ namespace mvlt
                 // codechecker_intentional [all] no need to optimize it
                 info.dli_fbase = (void*)extra_info->l_addr;
 
-                if (info.dli_sname == NULL)
-                    info.dli_saddr = info.dli_fbase;
-
-                ptrdiff_t offset = static_cast<char*>(array[i]) - static_cast<char*>(info.dli_saddr) - 1;
+                ptrdiff_t offset = static_cast<char*>(array[i]) - static_cast<char*>(info.dli_fbase) - 1;
 
                 char buf[BUFSIZ];
 
-- 
2.43.0


From cf5014e5b17452ef96d6ffec01f15362615813ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:09 +0000
Subject: [PATCH 56/62] fix: the backtrace names the place of the call in every
 build

---
 Source/BackTrace/BackTrace.cpp | 20 +++++++-------------
 Source/BackTrace/BackTrace.h   | 11 +++++++++--
 2 files changed, 16 insertions(+), 15 deletions(-)

diff --git a/Source/BackTrace/BackTrace.cpp b/Source/BackTrace/BackTrace.cpp
index 5c2d215..2276b77 100644
--- a/Source/BackTrace/BackTrace.cpp
+++ b/Source/BackTrace/BackTrace.cpp
@@ -5,6 +5,9 @@ namespace mvlt
     /// Thread local variable to store functions call trace
     thread_local std::vector<std::string> Trace;
 
+    /// Thread local variable to store the place from which the first function of the trace was called
+    thread_local void* TracePlace = nullptr;
+
     BackTraceFormat TraceFormat = BackTraceFormat::Compact;
 
     void SetBackTraceFormat(const BackTraceFormat& traceFormat) noexcept
@@ -18,27 +21,17 @@ namespace mvlt
     {
         if (TraceFormat != BackTraceFormat::None)
         {
-            void* array[TRACE_MAX];
-            size_t traceSize;
-            std::size_t i = Trace.size() + 2;
-
-            traceSize = backtrace(array, TRACE_MAX);
-
             if (TraceFormat == BackTraceFormat::Compact)
             {
-                traceSize = i + 1;
                 Trace.push_back(Trace.front());
-            }
 
-            for (; i < traceSize; ++i)
-            {
                 Dl_info info;
                 link_map* extra_info;
-                dladdr1(array[i], &info, reinterpret_cast<void**>(&extra_info), RTLD_DL_LINKMAP);
+                dladdr1(TracePlace, &info, reinterpret_cast<void**>(&extra_info), RTLD_DL_LINKMAP);
                 // codechecker_intentional [all] no need to optimize it
                 info.dli_fbase = (void*)extra_info->l_addr;
 
-                ptrdiff_t offset = static_cast<char*>(array[i]) - static_cast<char*>(info.dli_fbase) - 1;
+                ptrdiff_t offset = static_cast<char*>(TracePlace) - static_cast<char*>(info.dli_fbase) - 1;
 
                 char buf[BUFSIZ];
 
@@ -77,8 +70,9 @@ namespace mvlt
 
 #endif
 
-    TraceLogger::TraceLogger(const std::string& funcName) noexcept : FuncName(funcName)
+    TraceLogger::TraceLogger(const std::string& funcName, void* callPlace) noexcept : FuncName(funcName)
     {
+        if (Trace.empty()) TracePlace = callPlace;
         Trace.emplace_back(FuncName);
     }
 
diff --git a/Source/BackTrace/BackTrace.h b/Source/BackTrace/BackTrace.h
index 170d6c8..e3ea2bf 100644
--- a/Source/BackTrace/BackTrace.h
+++ b/Source/BackTrace/BackTrace.h
@@ -21,8 +21,14 @@
 
 #define TRACE_MAX 1024
 
+#ifdef __GNUC__
+#define DBG_CALL_PLACE() __builtin_return_address(0)
+#else
+#define DBG_CALL_PLACE() nullptr
+#endif
+
 #ifndef NDEBUG
-#define DBG_LOG_ENTER() TraceLogger LocalTraceLoggerMacro(__FUNCTION__);
+#define DBG_LOG_ENTER() TraceLogger LocalTraceLoggerMacro(__FUNCTION__, DBG_CALL_PLACE());
 #else
 #define DBG_LOG_ENTER()
 #endif
@@ -85,8 +91,9 @@ namespace mvlt
             \brief Constructor to store function name
 
             \param [in] funcName the name of the function in which the class object was created
+            \param [in] callPlace the place from which this function was called
         */
-        explicit TraceLogger(const std::string& funcName) noexcept;
+        explicit TraceLogger(const std::string& funcName, void* callPlace = nullptr) noexcept;
 
         /**
             \brief Assignment operator
-- 
2.43.0


From ee3f9faea7bed587a3e4cd0f9fe340db4bb0ce1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:52 +0000
Subject: [PATCH 57/62] fix: floating point numbers become the same text in
 every locale

---
 Source/Strings/ToString.h | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/Source/Strings/ToString.h b/Source/Strings/ToString.h
index c78eb11..ca5e700 100644
--- a/Source/Strings/ToString.h
+++ b/Source/Strings/ToString.h
@@ -2,6 +2,8 @@
 
 #include <string>
 #include <cstdint>
+#include <locale>
+#include <sstream>
 
 namespace mvlt
 {
@@ -229,6 +231,27 @@ namespace mvlt
         return data;
     }
 
+    /**
+        \brief ToStringDoubleAndFloat template for working with float and double
+
+        \tparam <T> floatating type
+
+        \param [in] data the variable to be converted to a string
+
+        \return string with six digits after the dot, in any locale
+    */
+    template <class T>
+    inline std::string ToStringDoubleAndFloat(const T& data) noexcept
+    {
+        // The stream uses the classic locale, so the fractional part is always separated by a dot
+        std::ostringstream stream;
+        stream.imbue(std::locale::classic());
+
+        stream << std::fixed << data;
+
+        return stream.str();
+    }
+
     /**
         \brief Specialization of the ToString method for the float type
 
@@ -236,12 +259,12 @@ namespace mvlt
 
         \param [in] data the variable to be converted to a string
 
-        \return result of std::to_string function
+        \return result of ToStringDoubleAndFloat function
     */
     template <>
     inline std::string ToString(const float& data) noexcept
     {
-        return std::to_string(data);
+        return ToStringDoubleAndFloat(data);
     }
 
     /**
@@ -251,12 +274,12 @@ namespace mvlt
 
         \param [in] data the variable to be converted to a string
 
-        \return result of std::to_string function
+        \return result of ToStringDoubleAndFloat function
     */
     template <>
     inline std::string ToString(const double& data) noexcept
     {
-        return std::to_string(data);
+        return ToStringDoubleAndFloat(data);
     }
 
     /**@} */
-- 
2.43.0


From 79c156dfaf7921699dda57593f6e67f273e90e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:03 +0000
Subject: [PATCH 58/62] fix: identifiers of records and vaults do not depend on
 the global locale

---
 Source/Vault.cpp          | 1 +
 Source/VaultRecordRef.cpp | 1 +
 Source/VaultRecordSet.cpp | 1 +
 3 files changed, 3 insertions(+)

diff --git a/Source/Vault.cpp b/Source/Vault.cpp
index d8fd7ac..8c2b7e3 100644
--- a/Source/Vault.cpp
+++ b/Source/Vault.cpp
@@ -694,6 +694,7 @@ namespace mvlt
         DBG_LOG_ENTER();
 
         std::stringstream res;
+        res.imbue(std::locale::classic());
 
         // Lock Vault to read
         ReadLock<RecursiveReadWriteMutex> readLock(RecursiveReadWriteMtx);
diff --git a/Source/VaultRecordRef.cpp b/Source/VaultRecordRef.cpp
index be69339..6250178 100644
--- a/Source/VaultRecordRef.cpp
+++ b/Source/VaultRecordRef.cpp
@@ -133,6 +133,7 @@ namespace mvlt
         DBG_LOG_ENTER();
 
         std::stringstream ss;
+        ss.imbue(std::locale::classic());
 
         if (IsValid())
             ss << VaultRecordPtr;
diff --git a/Source/VaultRecordSet.cpp b/Source/VaultRecordSet.cpp
index a534a79..6fd7991 100644
--- a/Source/VaultRecordSet.cpp
+++ b/Source/VaultRecordSet.cpp
@@ -122,6 +122,7 @@ namespace mvlt
         DBG_LOG_ENTER();
 
         std::stringstream ss;
+        ss.imbue(std::locale::classic());
 
         if (GetIsParentVaultValid())
             ss << ParentVault;
-- 
2.43.0


From b1968adafd10a613f5fef1965f3b9525f20116ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:34 +0000
Subject: [PATCH 59/62] fix: debug reports name the place of the call in every
 locale

---
 Source/BackTrace/BackTrace.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Source/BackTrace/BackTrace.cpp b/Source/BackTrace/BackTrace.cpp
index 2276b77..0dee190 100644
--- a/Source/BackTrace/BackTrace.cpp
+++ b/Source/BackTrace/BackTrace.cpp
@@ -39,6 +39,7 @@ namespace mvlt
                 ssize_t readed = readlink("/proc/self/exe", buf, BUFSIZ - 1);
                 buf[readed < 0 ? 0 : readed] = 0;
                 std::stringstream sstream;
+                sstream.imbue(std::locale::classic());
                 sstream << std::hex << offset;
 
                 if (!Trace.empty())
-- 
2.43.0


From e8ef147e77f09d2da003f83e65da922c269f2c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:39 +0000
Subject: [PATCH 60/62] fix: debug reports name the place of the call whatever
 the name of the program

---
 Source/BackTrace/BackTrace.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/Source/BackTrace/BackTrace.cpp b/Source/BackTrace/BackTrace.cpp
index 0dee190..17e0095 100644
--- a/Source/BackTrace/BackTrace.cpp
+++ b/Source/BackTrace/BackTrace.cpp
@@ -50,7 +50,15 @@ namespace mvlt
                 }
                 else std::cout << "\t" << std::flush;
 
-                std::string command = "addr2line -e " + std::string(buf) + " " + sstream.str();
+                // The name of the program is quoted, it can contain spaces and other symbols that are special for the shell
+                std::string programName;
+                for (const char* c = buf; *c != 0; ++c)
+                {
+                    if (*c == '\'') programName += "'\\''";
+                    else programName += *c;
+                }
+
+                std::string command = "addr2line -e '" + programName + "' " + sstream.str();
 
                 // codechecker_intentional [all] its not a problem to use system because it is not input from user and it is only for debug
                 int res = system(command.c_str());
-- 
2.43.0


From 1e0f255789ed69f9b0344b695d02f60fdbc29777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:45 +0000
Subject: [PATCH 61/62] fix: requests with the default predicate work before
 main and after it

---
 Source/VaultRequest.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Source/VaultRequest.hpp b/Source/VaultRequest.hpp
index 01dcfcf..f18b9ca 100644
--- a/Source/VaultRequest.hpp
+++ b/Source/VaultRequest.hpp
@@ -9,10 +9,14 @@ namespace mvlt
     template <VaultRequestType Type>
     template <class T>
     // codechecker_intentional [all] false positive warning from clag_tidy
-    VaultRequest<Type>::VaultRequest(const std::string& key, const T& keyValue, const std::function<bool(const VaultRecordRef& ref)>& requestPredicat) noexcept : Key(key), RequestPredicat(requestPredicat)
+    VaultRequest<Type>::VaultRequest(const std::string& key, const T& keyValue, const std::function<bool(const VaultRecordRef& ref)>& requestPredicat) noexcept : Key(key)
     {
         DBG_LOG_ENTER();
 
+        // The default predicate is not copied, it may be not initialized yet or already destroyed if the request is made by a static object
+        if (&requestPredicat != &DefaultRequestPredicat) RequestPredicat = requestPredicat;
+        else RequestPredicat = [](const VaultRecordRef&) { return true; };
+
         static_assert(!std::is_array<T>::value, "It is not possible to use a c array as a key value. \n\
             If you want to use a string as a key, you must specialize the function with a string. Like this: \n\
             Less<std::string>(\"Key\", \"Value\") or Greater(\"Key\", std::string(\"Value\")). \n\
-- 
2.43.0


From 83491064f3e8943ecd4d705e108f135066d1a488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:49 +0000
Subject: [PATCH 62/62] fix: debug build works in the destructors of static and
 thread local objects

---
 Source/BackTrace/BackTrace.cpp | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/Source/BackTrace/BackTrace.cpp b/Source/BackTrace/BackTrace.cpp
index 17e0095..2567e7b 100644
--- a/Source/BackTrace/BackTrace.cpp
+++ b/Source/BackTrace/BackTrace.cpp
@@ -3,7 +3,8 @@
 namespace mvlt
 {
     /// Thread local variable to store functions call trace
-    thread_local std::vector<std::string> Trace;
+    /// It is a pointer because it must outlive the objects with static and thread storage duration, the first function of the trace creates it and deletes it
+    thread_local std::vector<std::string>* Trace = nullptr;
 
     /// Thread local variable to store the place from which the first function of the trace was called
     thread_local void* TracePlace = nullptr;
@@ -23,7 +24,7 @@ namespace mvlt
         {
             if (TraceFormat == BackTraceFormat::Compact)
             {
-                Trace.push_back(Trace.front());
+                Trace->push_back(Trace->front());
 
                 Dl_info info;
                 link_map* extra_info;
@@ -42,11 +43,11 @@ namespace mvlt
                 sstream.imbue(std::locale::classic());
                 sstream << std::hex << offset;
 
-                if (!Trace.empty())
+                if (!Trace->empty())
                 {
                     std::cout << "\t";
-                    std::cout << "\x1B[33m" << Trace.back() << "\033[0m from " << std::flush;
-                    Trace.pop_back();
+                    std::cout << "\x1B[33m" << Trace->back() << "\033[0m from " << std::flush;
+                    Trace->pop_back();
                 }
                 else std::cout << "\t" << std::flush;
 
@@ -72,7 +73,7 @@ namespace mvlt
     {
         if (TraceFormat != BackTraceFormat::None)
         {
-            std::cout << "\t\x1B[33m" << Trace.front() 
+            std::cout << "\t\x1B[33m" << Trace->front() 
                 << "\033[0m from (File name and file line not available on this machine! If you are on linux try to download libexecinfo and reconfigure project. See Checkers/BackTrace)" << std::endl;
         }
     }
@@ -81,12 +82,23 @@ namespace mvlt
 
     TraceLogger::TraceLogger(const std::string& funcName, void* callPlace) noexcept : FuncName(funcName)
     {
-        if (Trace.empty()) TracePlace = callPlace;
-        Trace.emplace_back(FuncName);
+        if (Trace == nullptr)
+        {
+            Trace = new std::vector<std::string>;
+            TracePlace = callPlace;
+        }
+
+        Trace->emplace_back(FuncName);
     }
 
     TraceLogger::~TraceLogger() noexcept
     {
-        if (FuncName == Trace.back()) Trace.pop_back();
+        if (FuncName == Trace->back()) Trace->pop_back();
+
+        if (Trace->empty())
+        {
+            delete Trace;
+            Trace = nullptr;
+        }
     }
 }
\ No newline at end of file
-- 
2.43.0

