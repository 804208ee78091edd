From 8f37aaad34d0557c6f1b38bf832fc7cb893ac7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:17 +0000
Subject: [PATCH 1/7] fix: DynamicLock::TryLock granted AddRemove to any lock
 with WriteAll permissions

---
 inc/Tecs_lock.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/Tecs_lock.hh b/inc/Tecs_lock.hh
index 71a0ee0..9b35c33 100644
--- a/inc/Tecs_lock.hh
+++ b/inc/Tecs_lock.hh
@@ -465,7 +465,7 @@ namespace Tecs {
         template<typename... DynamicPermissions>
         std::optional<Lock<ECS, DynamicPermissions...>> TryLock() const {
             using DynamicLockType = Lock<ECS, DynamicPermissions...>;
-            if constexpr (Lock<ECS, StaticPermissions...>::template has_permissions<DynamicLockType>()) {
+            if constexpr (Lock<ECS, StaticPermissions...>::template has_permissions<DynamicPermissions...>()) {
                 return DynamicLockType(this->instance, this->base, this->permissions);
             } else {
                 static constexpr auto requestedRead = generateReadBitset<DynamicLockType>();
-- 
2.43.0


From 2881c31112fd7f5205f404043445d699a3dd077a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:17 +0000
Subject: [PATCH 2/7] fix: const access to a missing global component must not
 create it

---
 inc/Tecs_lock.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/Tecs_lock.hh b/inc/Tecs_lock.hh
index 9b35c33..b8286fa 100644
--- a/inc/Tecs_lock.hh
+++ b/inc/Tecs_lock.hh
@@ -209,7 +209,7 @@ namespace Tecs {
 #endif
 
             auto &storage = instance.template Storage<CompType>();
-            if constexpr (is_add_remove_allowed<LockType>()) {
+            if constexpr (is_add_remove_allowed<LockType>() && !std::is_const<ReturnType>()) {
 #ifdef TECS_UNCHECKED_MODE
                 auto &metadata = permissions[0] ? instance.globalWriteMetadata : instance.globalReadMetadata;
 #endif
-- 
2.43.0


From 0261dd0c02c0d37d447caa8d07032ce26f36e773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:17 +0000
Subject: [PATCH 3/7] fix: EntityView reverse iteration skipped the first
 entity

---
 inc/Tecs_entity_view.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/Tecs_entity_view.hh b/inc/Tecs_entity_view.hh
index 5c393f5..2ce6cfa 100644
--- a/inc/Tecs_entity_view.hh
+++ b/inc/Tecs_entity_view.hh
@@ -138,7 +138,7 @@ namespace Tecs {
         }
 
         inline reverse_iterator rend() const noexcept {
-            return reverse_iterator(iterator{*this, start_index + 1});
+            return reverse_iterator(iterator{*this, start_index});
         }
 
         inline reference operator[](size_type index) const {
-- 
2.43.0


From 6a00a1a8d223a30e1c8e3d8a95afd16918f0ef4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:17 +0000
Subject: [PATCH 4/7] fix: EntityView::operator[] ignored the start of the view

---
 inc/Tecs_entity_view.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/Tecs_entity_view.hh b/inc/Tecs_entity_view.hh
index 2ce6cfa..97f5e2a 100644
--- a/inc/Tecs_entity_view.hh
+++ b/inc/Tecs_entity_view.hh
@@ -143,11 +143,11 @@ namespace Tecs {
 
         inline reference operator[](size_type index) const {
 #ifndef TECS_UNCHECKED_MODE
-            if (index < start_index || index >= end_index) {
+            if (index >= size()) {
                 throw std::runtime_error("EntityView index out of range: " + std::to_string(index));
             }
 #endif
-            return (*storage)[index];
+            return (*storage)[start_index + index];
         }
 
         inline size_type size() const noexcept {
-- 
2.43.0


From f70be15f0d91ac5eeac29a5ca27cec8dff13eeb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:34 +0000
Subject: [PATCH 5/7] fix: EntityView::subview overflowed for large offsets and
 counts

---
 inc/Tecs_entity_view.hh | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/inc/Tecs_entity_view.hh b/inc/Tecs_entity_view.hh
index 97f5e2a..df9d376 100644
--- a/inc/Tecs_entity_view.hh
+++ b/inc/Tecs_entity_view.hh
@@ -161,8 +161,12 @@ namespace Tecs {
         inline EntityView subview(size_type offset, size_type count = std::numeric_limits<size_type>::max()) const {
 #ifndef TECS_UNCHECKED_MODE
             if (storage == nullptr) throw std::runtime_error("EntityView::subview storage is null");
+            if (offset > size()) {
+                throw std::runtime_error("EntityView::subview offset out of range: " + std::to_string(offset));
+            }
 #endif
-            return EntityView(*storage, start_index + offset, std::min(end_index, start_index + offset + count));
+            // Clip count to the end of this view without overflowing
+            return EntityView(*storage, start_index + offset, start_index + offset + std::min(size() - offset, count));
         }
 
     private:
-- 
2.43.0


From ae3657323687fab0a2c3f57b1cfb27bb7055e783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:34 +0000
Subject: [PATCH 6/7] fix: Entity::Unset of several components through an
 entity list reference

---
 inc/Tecs_entity.hh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/inc/Tecs_entity.hh b/inc/Tecs_entity.hh
index e8dfd80..2ff7430 100644
--- a/inc/Tecs_entity.hh
+++ b/inc/Tecs_entity.hh
@@ -292,7 +292,10 @@ namespace Tecs {
             }
 #endif
 
-            (lock.template RemoveComponents<Tn>(index), ...);
+            // It is possible for *this to be a reference to a component's writeValidEntities list
+            // Copy the index before removing components, since the reference is cleared by the first removal.
+            size_t copy = index;
+            (lock.template RemoveComponents<Tn>(copy), ...);
         }
 
         template<typename LockType>
-- 
2.43.0


From 6e05e3f2472b8c2b06055f7e8240b8b3d33e0735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:47 +0000
Subject: [PATCH 7/7] fix: entity lists were swapped after the metadata lock
 protecting them was released

---
 inc/Tecs_transaction.hh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/inc/Tecs_transaction.hh b/inc/Tecs_transaction.hh
index b96fb2f..c65e433 100644
--- a/inc/Tecs_transaction.hh
+++ b/inc/Tecs_transaction.hh
@@ -247,7 +247,6 @@ namespace Tecs {
                         this->instance.metadata.readComponents.swap(this->instance.metadata.writeComponents);
                         this->instance.metadata.readValidEntities.swap(this->instance.metadata.writeValidEntities);
                         this->instance.globalReadMetadata = this->instance.globalWriteMetadata;
-                        this->instance.metadata.CommitUnlock();
                     }
                 }
                 ( // For each AllComponentTypes
@@ -267,6 +266,10 @@ namespace Tecs {
                         }
                     }(),
                     ...);
+                // Entity lists can be read through any lock, so metadata stays locked until every list has been swapped
+                if constexpr (is_add_remove_allowed<LockType>()) {
+                    if (this->writeAccessedFlags[0]) this->instance.metadata.CommitUnlock();
+                }
             }
 
             ( // For each AllComponentTypes, reset the write storage to match read.
-- 
2.43.0

