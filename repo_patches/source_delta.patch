From 700db6dd90f059dd532adcfe0433ccf4b1878348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:22 +0000
Subject: [PATCH 01/55] fix: closing a connection that never started receiving
 must not call an unset transition handler

---
 lib/src/Connection.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/src/Connection.cpp b/lib/src/Connection.cpp
index 7674f23..75dc081 100644
--- a/lib/src/Connection.cpp
+++ b/lib/src/Connection.cpp
@@ -470,7 +470,10 @@ namespace dots
 
         try
         {
-            (*m_transitionHandler)(*this, e);
+            if (m_transitionHandler != std::nullopt)
+            {
+                (*m_transitionHandler)(*this, e);
+            }
         }
         catch (const std::exception& e)
         {
-- 
2.43.0


From 0124b4e24a6da88642ba13f4881e1c0f769d12d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:22 +0000
Subject: [PATCH 02/55] fix: report the closing of a connection only once

---
 lib/src/Connection.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/src/Connection.cpp b/lib/src/Connection.cpp
index 75dc081..9ef14e8 100644
--- a/lib/src/Connection.cpp
+++ b/lib/src/Connection.cpp
@@ -306,6 +306,11 @@ namespace dots
 
     void Connection::handleClose(std::exception_ptr ePtr)
     {
+        if (m_connectionState == DotsConnectionState::closed)
+        {
+            return;
+        }
+
         m_receiveHandler = std::nullopt;
         expectSystemType<DotsMsgError>(property_set_t::None, nullptr);
         setConnectionState(DotsConnectionState::closed, ePtr);
-- 
2.43.0


From a979d0b31b30045207b649680c60ae65ba8627fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:22 +0000
Subject: [PATCH 03/55] fix: errors that are not derived from std::exception
 must close the connection as well

---
 lib/src/Connection.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/lib/src/Connection.cpp b/lib/src/Connection.cpp
index 9ef14e8..7941621 100644
--- a/lib/src/Connection.cpp
+++ b/lib/src/Connection.cpp
@@ -223,6 +223,20 @@ namespace dots
                 }
 
             }
+            catch (...)
+            {
+                try
+                {
+                    transmit(DotsMsgError{
+                        .errorCode = 1,
+                        .errorText = "unknown error"
+                    });
+                }
+                catch (...)
+                {
+                    /* do nothing */
+                }
+            }
         }
 
         handleClose(ePtr);
@@ -465,6 +479,10 @@ namespace dots
                     {
                         LOG_ERROR_S(peerDescription() << " closed connection with error -> " << e.what());
                     }
+                    catch (...)
+                    {
+                        LOG_ERROR_S(peerDescription() << " closed connection with unknown error");
+                    }
                 }
             }
         }
-- 
2.43.0


From df59ea56e7827c0ca608a25b1b79e9e4e012d5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:22 +0000
Subject: [PATCH 04/55] fix: a guest must not proceed as if connected when the
 host refused the connection

---
 lib/src/Connection.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/src/Connection.cpp b/lib/src/Connection.cpp
index 7941621..65383cc 100644
--- a/lib/src/Connection.cpp
+++ b/lib/src/Connection.cpp
@@ -357,6 +357,11 @@ namespace dots
 
     void Connection::handleAuthorizationRequest(const DotsMsgConnectResponse& connectResponse)
     {
+        if (connectResponse.accepted == false)
+        {
+            throw std::runtime_error{ "connection was not accepted by the host" };
+        }
+
         m_selfId = *connectResponse.clientId;
 
         if (connectResponse.preload == true)
-- 
2.43.0


From aca3abce61d0e492059bd5b012ddc5f9432761de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:46 +0000
Subject: [PATCH 05/55] fix: keep failed guest connections alive until the
 failures of all of them were handled

---
 lib/src/HostTransceiver.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/src/HostTransceiver.cpp b/lib/src/HostTransceiver.cpp
index 3b556ec..fd0a942 100644
--- a/lib/src/HostTransceiver.cpp
+++ b/lib/src/HostTransceiver.cpp
@@ -86,7 +86,9 @@ namespace dots
 
     void HostTransceiver::transmit(const io::Transmission& transmission)
     {
-        using dirty_connection_t = std::pair<Connection*, std::exception_ptr>;
+        // note: the dirty connections have to be kept alive, because handling
+        // the error of one connection might cause others to be removed
+        using dirty_connection_t = std::pair<connection_ptr_t, std::exception_ptr>;
         std::vector<dirty_connection_t> dirtyConnections;
 
         for (Connection* destinationConnection : m_groups[*transmission.header().typeName])
@@ -99,7 +101,7 @@ namespace dots
                 }
                 catch (...)
                 {
-                    dirtyConnections.emplace_back(destinationConnection, std::current_exception());
+                    dirtyConnections.emplace_back(m_guestConnections.find(destinationConnection)->second, std::current_exception());
                 }
             }
         }
-- 
2.43.0


From 5927bae057ea0ee738bd2bd5d4752d72d833196b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:52 +0000
Subject: [PATCH 06/55] fix: copy instances to be removed on behalf of a guest,
 because subscribers might remove them first

---
 lib/src/HostTransceiver.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/lib/src/HostTransceiver.cpp b/lib/src/HostTransceiver.cpp
index fd0a942..69bc309 100644
--- a/lib/src/HostTransceiver.cpp
+++ b/lib/src/HostTransceiver.cpp
@@ -191,7 +191,9 @@ namespace dots
                     group.erase(&connection);
                 }
 
-                std::vector<const type::Struct*> cleanupInstances;
+                // note: the instances have to be copied, because subscribers
+                // might remove further instances while being notified
+                std::vector<type::AnyStruct> cleanupInstances;
 
                 for (const auto& [descriptor, container] : pool())
                 {
@@ -201,15 +203,15 @@ namespace dots
                         {
                             if (connection.peerId() == cloneInfo.lastUpdateFrom)
                             {
-                                cleanupInstances.emplace_back(&*instance);
+                                cleanupInstances.emplace_back(instance);
                             }
                         }
                     }
                 }
 
-                for (const type::Struct* instance : cleanupInstances)
+                for (const type::AnyStruct& instance : cleanupInstances)
                 {
-                    remove(*instance);
+                    remove(instance);
                 }
 
                 m_guestConnections.erase(&connection);
@@ -303,17 +305,19 @@ namespace dots
         {
             if (std::find(typeNames.begin(), typeNames.end(), container.descriptor().name()) != typeNames.end())
             {
-                std::vector<const type::Struct*> removeInstances;
+                // note: the instances have to be copied, because subscribers
+                // might remove further instances while being notified
+                std::vector<type::AnyStruct> removeInstances;
 
                 for (const auto& [instance, cloneInformation] : container)
                 {
                     (void)cloneInformation;
-                    removeInstances.emplace_back(&instance.get());
+                    removeInstances.emplace_back(instance);
                 }
 
-                for (const type::Struct* instance : removeInstances)
+                for (const type::AnyStruct& instance : removeInstances)
                 {
-                    remove(*instance);
+                    remove(instance);
                 }
             }
         }
-- 
2.43.0


From 601e15f47b6c8fa010777ecc2c8f95c9cbab2212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:30 +0000
Subject: [PATCH 07/55] fix: removing a handler must neither be lost nor take
 effect while it is executed when dispatches are nested

---
 lib/include/dots/Dispatcher.h |  3 ++-
 lib/src/Dispatcher.cpp        | 29 ++++++++++++++++++++++-------
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/lib/include/dots/Dispatcher.h b/lib/include/dots/Dispatcher.h
index 86c61fa..0874dda 100644
--- a/lib/include/dots/Dispatcher.h
+++ b/lib/include/dots/Dispatcher.h
@@ -3,6 +3,7 @@
 #pragma once
 #include <map>
 #include <unordered_map>
+#include <vector>
 #include <functional>
 #include <dots/type/AnyStruct.h>
 #include <dots/Event.h>
@@ -347,7 +348,7 @@ namespace dots
         template <typename Handlers, typename Dispatchable>
         void dispatchToHandlers(const type::StructDescriptor& descriptor, Handlers& handlers, const Dispatchable& dispatchable);
 
-        std::optional<id_t> m_currentlyDispatchingId;
+        std::vector<id_t> m_dispatchingIds;
         std::vector<id_t> m_removeIds;
         ContainerPool m_containerPool;
         transmission_handler_pool_t m_transmissionHandlerPool;
diff --git a/lib/src/Dispatcher.cpp b/lib/src/Dispatcher.cpp
index e3d5070..ed15c89 100644
--- a/lib/src/Dispatcher.cpp
+++ b/lib/src/Dispatcher.cpp
@@ -1,6 +1,8 @@
 // SPDX-License-Identifier: LGPL-3.0-only
 // Copyright 2015-2022 Thomas Schaetzlein <thomas@pnxs.de>, Christopher Gerlach <gerlachch@gmx.com>
 #include <dots/Dispatcher.h>
+#include <algorithm>
+#include <utility>
 
 namespace dots
 {
@@ -110,7 +112,7 @@ namespace dots
 
             if (auto itHandler = handlers.find(id); itHandler != handlers.end())
             {
-                if (id == m_currentlyDispatchingId)
+                if (std::find(m_dispatchingIds.begin(), m_dispatchingIds.end(), id) != m_dispatchingIds.end())
                 {
                     m_removeIds.emplace_back(id);
                 }
@@ -186,9 +188,15 @@ namespace dots
     {
         for (const auto& [id, handler] : handlers)
         {
+            if (std::find(m_removeIds.begin(), m_removeIds.end(), id) != m_removeIds.end())
+            {
+                continue;
+            }
+
+            m_dispatchingIds.emplace_back(id);
+
             try
             {
-                m_currentlyDispatchingId = id;
                 handler(dispatchable);
             }
             catch (...)
@@ -196,14 +204,21 @@ namespace dots
                 m_errorHandler(descriptor, std::current_exception());
             }
 
-            m_currentlyDispatchingId = std::nullopt;
+            m_dispatchingIds.pop_back();
         }
 
-        for (id_t id : m_removeIds)
+        // note that handlers might have dispatched further transmissions, so the
+        // removals of others and of handlers still being executed must be kept
+        const std::vector<id_t> removeIds = std::exchange(m_removeIds, {});
+
+        for (id_t id : removeIds)
         {
-            handlers.erase(id);
-        }
+            bool isDispatching = std::find(m_dispatchingIds.begin(), m_dispatchingIds.end(), id) != m_dispatchingIds.end();
 
-        m_removeIds.clear();
+            if (isDispatching || handlers.erase(id) == 0)
+            {
+                m_removeIds.emplace_back(id);
+            }
+        }
     }
 }
-- 
2.43.0


From 1e8beb705f58810db9b72bc0e95390801f7b484e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:56 +0000
Subject: [PATCH 08/55] fix: an event handler must not stay registered when its
 subscription failed

---
 lib/src/Dispatcher.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/lib/src/Dispatcher.cpp b/lib/src/Dispatcher.cpp
index ed15c89..f4a90c2 100644
--- a/lib/src/Dispatcher.cpp
+++ b/lib/src/Dispatcher.cpp
@@ -73,11 +73,20 @@ namespace dots
                 .isFromMyself = false
             };
 
-            for (const auto& [instance, cloneInfo] : container)
+            try
+            {
+                for (const auto& [instance, cloneInfo] : container)
+                {
+                    header.attributes = instance->_validProperties();
+                    --*header.fromCache;
+                    handler_(Event<>{ header, instance, instance, cloneInfo, DotsMt::create });
+                }
+            }
+            catch (...)
             {
-                header.attributes = instance->_validProperties();
-                --*header.fromCache;
-                handler_(Event<>{ header, instance, instance, cloneInfo, DotsMt::create });
+                // the caller will not get to know the id and be unable to remove the handler
+                removeEventHandler(descriptor, id);
+                throw;
             }
         }
 
-- 
2.43.0


From 5e0c85f99d64d6ab39c2823818df6b8ff0afdd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:32 +0000
Subject: [PATCH 09/55] fix: unsubscribing must refer to the current location
 of a moved transceiver

---
 lib/include/dots/Transceiver.h |  9 +++++----
 lib/src/Transceiver.cpp        | 12 ++++++------
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/lib/include/dots/Transceiver.h b/lib/include/dots/Transceiver.h
index 2151e9e..7519904 100644
--- a/lib/include/dots/Transceiver.h
+++ b/lib/include/dots/Transceiver.h
@@ -236,7 +236,7 @@ namespace dots
                 joinGroup(T::_Descriptor().name());
                 Dispatcher::id_t id = m_dispatcher.addEventHandler(std::move(handler));
 
-                return makeSubscription([&, id]{ m_dispatcher.removeEventHandler(T::_Descriptor(), id); });
+                return makeSubscription([id](Transceiver& transceiver){ transceiver.m_dispatcher.removeEventHandler(T::_Descriptor(), id); });
             }
             else
             {
@@ -585,11 +585,12 @@ namespace dots
     template <typename UnsubscribeHandler>
     Subscription Transceiver::makeSubscription(UnsubscribeHandler&& unsubscribeHandler)
     {
-        return Subscription{ [this_ = std::weak_ptr<Transceiver*>{ m_this }, unsubscribeHandler{ std::forward<UnsubscribeHandler>(unsubscribeHandler) }]
+        return Subscription{ [weakThis = std::weak_ptr<Transceiver*>{ m_this }, unsubscribeHandler{ std::forward<UnsubscribeHandler>(unsubscribeHandler) }]
         {
-            if (this_.lock())
+            // note that the transceiver might have been moved in the meantime
+            if (std::shared_ptr<Transceiver*> this_ = weakThis.lock(); this_ != nullptr)
             {
-                unsubscribeHandler();
+                unsubscribeHandler(**this_);
             }
         } };
     }
diff --git a/lib/src/Transceiver.cpp b/lib/src/Transceiver.cpp
index 10f2ca6..0623b5a 100644
--- a/lib/src/Transceiver.cpp
+++ b/lib/src/Transceiver.cpp
@@ -122,7 +122,7 @@ namespace dots
         joinGroup(descriptor.name());
         Dispatcher::id_t id = m_dispatcher.addTransmissionHandler(descriptor, std::move(handler));
 
-        return makeSubscription([&, id]{ m_dispatcher.removeTransmissionHandler(descriptor, id); });
+        return makeSubscription([&descriptor, id](Transceiver& transceiver){ transceiver.m_dispatcher.removeTransmissionHandler(descriptor, id); });
     }
 
     Subscription Transceiver::subscribe(const type::StructDescriptor& descriptor, event_handler_t<> handler)
@@ -135,7 +135,7 @@ namespace dots
         joinGroup(descriptor.name());
         Dispatcher::id_t id = m_dispatcher.addEventHandler(descriptor, std::move(handler));
 
-        return makeSubscription([&, id]{ m_dispatcher.removeEventHandler(descriptor, id); });
+        return makeSubscription([&descriptor, id](Transceiver& transceiver){ transceiver.m_dispatcher.removeEventHandler(descriptor, id); });
     }
 
     Subscription Transceiver::subscribe(std::string_view name, transmission_handler_t handler)
@@ -153,15 +153,15 @@ namespace dots
         const auto& [id, handler_] = *m_newTypeHandlers.try_emplace(m_nextId++, std::move(handler)).first;
         m_registry.forEach(handler_);
 
-        return makeSubscription([&, id(id)]
+        return makeSubscription([id(id)](Transceiver& transceiver)
         {
-            if (id == m_currentlyDispatchingId)
+            if (id == transceiver.m_currentlyDispatchingId)
             {
-                m_removeIds.emplace_back(id);
+                transceiver.m_removeIds.emplace_back(id);
             }
             else
             {
-                m_newTypeHandlers.extract(id);
+                transceiver.m_newTypeHandlers.extract(id);
             }
         });
     }
-- 
2.43.0


From dd9894f8ecb7f6a70d3e784c444aaf9b9e4ae5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:18 +0000
Subject: [PATCH 10/55] fix: unsubscribing new type handlers must work when
 types are registered by new type handlers

---
 lib/include/dots/Transceiver.h |  2 +-
 lib/src/Transceiver.cpp        | 53 +++++++++++++++++++++++++++-------
 2 files changed, 44 insertions(+), 11 deletions(-)

diff --git a/lib/include/dots/Transceiver.h b/lib/include/dots/Transceiver.h
index 7519904..c200900 100644
--- a/lib/include/dots/Transceiver.h
+++ b/lib/include/dots/Transceiver.h
@@ -571,7 +571,7 @@ namespace dots
         void handleDispatchError(const type::StructDescriptor& descriptor, std::exception_ptr ePtr) noexcept;
 
         id_t m_nextId;
-        std::optional<id_t> m_currentlyDispatchingId;
+        std::vector<id_t> m_dispatchingIds;
         std::vector<id_t> m_removeIds;
         std::shared_ptr<Transceiver*> m_this;
         type::Registry m_registry;
diff --git a/lib/src/Transceiver.cpp b/lib/src/Transceiver.cpp
index 0623b5a..49c8b41 100644
--- a/lib/src/Transceiver.cpp
+++ b/lib/src/Transceiver.cpp
@@ -1,6 +1,8 @@
 // SPDX-License-Identifier: LGPL-3.0-only
 // Copyright 2015-2022 Thomas Schaetzlein <thomas@pnxs.de>, Christopher Gerlach <gerlachch@gmx.com>
 #include <dots/Transceiver.h>
+#include <algorithm>
+#include <utility>
 #include <dots/tools/logging.h>
 #include <dots/serialization/AsciiSerialization.h>
 #include <DotsMember.dots.h>
@@ -24,7 +26,7 @@ namespace dots
 
     Transceiver::Transceiver(Transceiver&& other) noexcept :
         m_nextId(other.m_nextId),
-        m_currentlyDispatchingId{ other.m_currentlyDispatchingId },
+        m_dispatchingIds{ std::move(other.m_dispatchingIds) },
         m_removeIds{ std::move(other.m_removeIds) },
         m_this{ std::move(other.m_this) },
         m_registry{ std::move(other.m_registry) },
@@ -40,7 +42,7 @@ namespace dots
     Transceiver& Transceiver::operator = (Transceiver&& rhs) noexcept
     {
         m_nextId = rhs.m_nextId;
-        m_currentlyDispatchingId = rhs.m_currentlyDispatchingId;
+        m_dispatchingIds = std::move(rhs.m_dispatchingIds);
         m_removeIds = std::move(rhs.m_removeIds);
         m_this = std::move(rhs.m_this);
         m_registry = std::move(rhs.m_registry);
@@ -151,11 +153,23 @@ namespace dots
     Subscription Transceiver::subscribe(new_type_handler_t<> handler)
     {
         const auto& [id, handler_] = *m_newTypeHandlers.try_emplace(m_nextId++, std::move(handler)).first;
-        m_registry.forEach(handler_);
+
+        try
+        {
+            m_registry.forEach(handler_);
+        }
+        catch (...)
+        {
+            // the caller will not get a subscription that could remove the handler
+            m_newTypeHandlers.extract(id);
+            throw;
+        }
 
         return makeSubscription([id(id)](Transceiver& transceiver)
         {
-            if (id == transceiver.m_currentlyDispatchingId)
+            const std::vector<id_t>& dispatchingIds = transceiver.m_dispatchingIds;
+
+            if (std::find(dispatchingIds.begin(), dispatchingIds.end(), id) != dispatchingIds.end())
             {
                 transceiver.m_removeIds.emplace_back(id);
             }
@@ -175,25 +189,44 @@ namespace dots
     {
         for (const auto& [id, handler] : m_newTypeHandlers)
         {
+            if (std::find(m_removeIds.begin(), m_removeIds.end(), id) != m_removeIds.end())
+            {
+                continue;
+            }
+
+            m_dispatchingIds.emplace_back(id);
+
             try
             {
-                m_currentlyDispatchingId = id;
                 handler(descriptor);
             }
             catch (const std::exception& e)
             {
                 LOG_ERROR_S("error in new type handler for type '" << descriptor.name() << "' -> " << e.what());
             }
+            catch (...)
+            {
+                LOG_ERROR_S("error in new type handler for type '" << descriptor.name() << "' -> <unknown>");
+            }
 
-            m_currentlyDispatchingId = std::nullopt;
+            m_dispatchingIds.pop_back();
         }
 
-        for (id_t id : m_removeIds)
+        // note that handlers might have registered further types, so the removal
+        // of handlers that are still being executed must be kept
+        const std::vector<id_t> removeIds = std::exchange(m_removeIds, {});
+
+        for (id_t id : removeIds)
         {
-            m_newTypeHandlers.extract(id);
+            if (std::find(m_dispatchingIds.begin(), m_dispatchingIds.end(), id) != m_dispatchingIds.end())
+            {
+                m_removeIds.emplace_back(id);
+            }
+            else
+            {
+                m_newTypeHandlers.extract(id);
+            }
         }
-
-        m_removeIds.clear();
     }
 
     void Transceiver::handleDispatchError(const type::StructDescriptor& descriptor, std::exception_ptr ePtr) noexcept
-- 
2.43.0


From 0d23456b90069e30d48d5b7676ce4a2b443748e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:54 +0000
Subject: [PATCH 11/55] fix: keep a container's instance when a header lacks
 attributes

---
 lib/src/Container.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/lib/src/Container.cpp b/lib/src/Container.cpp
index d6031bf..9041d9d 100644
--- a/lib/src/Container.cpp
+++ b/lib/src/Container.cpp
@@ -155,11 +155,15 @@ namespace dots
         }
         else
         {
+            // note: the attributes have to be read before the instance is extracted,
+            // because it would get lost if they were missing
+            property_set_t includedProperties = *header.attributes;
+
             node_t node = m_instances.extract(itLower);
             type::Struct& existing = node.key();
             DotsCloneInformation& cloneInfo = node.mapped();
 
-            updateWithoutKeys(existing, instance, *header.attributes);
+            updateWithoutKeys(existing, instance, includedProperties);
             cloneInfo.lastOperation = DotsMt::update;
             cloneInfo.lastUpdateFrom = header.sender;
             cloneInfo.modified = header.sentTime;
@@ -173,14 +177,19 @@ namespace dots
 
     auto Container<type::Struct>::remove(const DotsHeader& header, const type::Struct& instance) & -> node_t
     {
-        node_t node = m_instances.extract(instance);
+        node_t node;
 
-        if (!node.empty())
+        if (auto it = m_instances.find(instance); it != m_instances.end())
         {
+            // note: the attributes have to be read before the instance is extracted,
+            // because it would get lost if they were missing
+            property_set_t includedProperties = *header.attributes;
+
+            node = m_instances.extract(it);
             type::Struct& removed = node.key();
             DotsCloneInformation& cloneInfo = node.mapped();
 
-            updateWithoutKeys(removed, instance, *header.attributes);
+            updateWithoutKeys(removed, instance, includedProperties);
             cloneInfo.lastOperation = DotsMt::remove;
             cloneInfo.lastUpdateFrom = header.sender;
             cloneInfo.modified = header.sentTime;
-- 
2.43.0


From dac4525571895d2bcf5dbc7a8599309938800df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:49 +0000
Subject: [PATCH 12/55] fix: join groups again after the connection to the host
 was reopened

---
 lib/src/GuestTransceiver.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/GuestTransceiver.cpp b/lib/src/GuestTransceiver.cpp
index 60c3690..d759a12 100644
--- a/lib/src/GuestTransceiver.cpp
+++ b/lib/src/GuestTransceiver.cpp
@@ -42,6 +42,8 @@ namespace dots
             throw std::logic_error{ "attempt to open connection while already connected" };
         }
 
+        // the host does not know about the groups that were joined on a previous connection
+        m_joinedGroups.clear();
         m_preloadPublishTypes = std::move(preloadPublishTypes);
         m_preloadSubscribeTypes = std::move(preloadSubscribeTypes);
 
-- 
2.43.0


From 2efa2db6554a75da362b01294136764355e4fa98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:30 +0000
Subject: [PATCH 13/55] fix: destroy handlers, which might own subscriptions,
 while their transceiver still exists

---
 lib/include/dots/Transceiver.h | 2 +-
 lib/src/Transceiver.cpp        | 8 ++++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/include/dots/Transceiver.h b/lib/include/dots/Transceiver.h
index c200900..17925c5 100644
--- a/lib/include/dots/Transceiver.h
+++ b/lib/include/dots/Transceiver.h
@@ -58,7 +58,7 @@ namespace dots
         );
         Transceiver(const Transceiver& other) = delete;
         Transceiver(Transceiver&& other) noexcept;
-        virtual ~Transceiver() = default;
+        virtual ~Transceiver();
 
         Transceiver& operator = (const Transceiver& rhs) = delete;
         Transceiver& operator = (Transceiver&& rhs) noexcept;
diff --git a/lib/src/Transceiver.cpp b/lib/src/Transceiver.cpp
index 49c8b41..effe097 100644
--- a/lib/src/Transceiver.cpp
+++ b/lib/src/Transceiver.cpp
@@ -39,6 +39,14 @@ namespace dots
         *m_this = this;
     }
 
+    Transceiver::~Transceiver()
+    {
+        // handlers might own subscriptions, so they have to be destroyed while
+        // the transceiver can still be accessed
+        m_dispatcher.clear();
+        std::exchange(m_newTypeHandlers, {});
+    }
+
     Transceiver& Transceiver::operator = (Transceiver&& rhs) noexcept
     {
         m_nextId = rhs.m_nextId;
-- 
2.43.0


From 3ac263c9c7314a16f0965484170bc0b5f9f4e1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:45 +0000
Subject: [PATCH 14/55] fix: a subscription owned by its own handler must
 unsubscribe only once

---
 lib/src/Subscription.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/src/Subscription.cpp b/lib/src/Subscription.cpp
index 92c0d9d..eada42f 100644
--- a/lib/src/Subscription.cpp
+++ b/lib/src/Subscription.cpp
@@ -1,6 +1,7 @@
 // SPDX-License-Identifier: LGPL-3.0-only
 // Copyright 2015-2022 Thomas Schaetzlein <thomas@pnxs.de>, Christopher Gerlach <gerlachch@gmx.com>
 #include <dots/Subscription.h>
+#include <utility>
 
 namespace dots
 {
@@ -33,10 +34,10 @@ namespace dots
 
     void Subscription::unsubscribe()
     {
-        if (m_handler != std::nullopt)
+        // note that the subscription might be owned by the handler that is removed
+        if (std::optional<unsubscribe_handler_t> handler = std::exchange(m_handler, std::nullopt); handler != std::nullopt)
         {
-            (*m_handler)();
-            m_handler = std::nullopt;
+            (*handler)();
         }
     }
 
-- 
2.43.0


From 530999f1ae7b58a018d6cbec0c78ad1a170e7865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:30 +0000
Subject: [PATCH 15/55] fix: don't access a channel that was deleted by a
 synchronously dispatched message

---
 lib/include/dots/io/channels/AsyncStreamChannel.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/include/dots/io/channels/AsyncStreamChannel.h b/lib/include/dots/io/channels/AsyncStreamChannel.h
index 087397a..b68c825 100644
--- a/lib/include/dots/io/channels/AsyncStreamChannel.h
+++ b/lib/include/dots/io/channels/AsyncStreamChannel.h
@@ -340,8 +340,9 @@ namespace dots::io
             if (requiredBytes <= m_serializer.inputAvailable())
             {
                 m_readDispatching = true;
+                std::weak_ptr<Channel> channel = weak_from_this();
 
-                asio::dispatch(m_stream.get_executor(), [this, this_{ weak_from_this() }, handler{ std::forward<Handler>(handler) }]
+                asio::dispatch(m_stream.get_executor(), [this, this_{ channel }, handler{ std::forward<Handler>(handler) }]
                 {
                     try
                     {
@@ -358,6 +359,13 @@ namespace dots::io
                     }
                 });
 
+                // note: if the handler was invoked synchronously, the channel
+                // might have already been deleted
+                if (channel.expired())
+                {
+                    return;
+                }
+
                 if (m_readDispatching)
                 {
                     m_readDispatching = false;
-- 
2.43.0


From c58eefd4abe33beedd7e735f7720f03d3c122050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:36 +0000
Subject: [PATCH 16/55] fix: keep the payload cache of a listener alive as long
 as its channels use it

---
 lib/include/dots/io/channels/AsyncStreamChannel.h | 6 +++---
 lib/include/dots/io/channels/TcpChannel.h         | 2 +-
 lib/include/dots/io/channels/TcpListener.h        | 2 +-
 lib/include/dots/io/channels/UdsChannel.h         | 2 +-
 lib/include/dots/io/channels/UdsListener.h        | 2 +-
 lib/src/io/channels/TcpChannel.cpp                | 4 ++--
 lib/src/io/channels/TcpListener.cpp               | 4 ++--
 lib/src/io/channels/UdsChannel.cpp                | 4 ++--
 lib/src/io/channels/UdsListener.cpp               | 4 ++--
 9 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/lib/include/dots/io/channels/AsyncStreamChannel.h b/lib/include/dots/io/channels/AsyncStreamChannel.h
index b68c825..2b322e1 100644
--- a/lib/include/dots/io/channels/AsyncStreamChannel.h
+++ b/lib/include/dots/io/channels/AsyncStreamChannel.h
@@ -122,12 +122,12 @@ namespace dots::io
          * AsyncStreamChannel::serializeTransmission(Transmission::id_t, const
          * DotsHeader&, const type::Struct&)).
          */
-        AsyncStreamChannel(key_t key, stream_t&& stream, payload_cache_t* payloadCache) :
+        AsyncStreamChannel(key_t key, stream_t&& stream, std::shared_ptr<payload_cache_t> payloadCache) :
             Channel(key),
             m_asyncWriting(false),
             m_readDispatching(false),
             m_stream{ std::move(stream) },
-            m_payloadCache(payloadCache)
+            m_payloadCache(std::move(payloadCache))
         {
             /* do nothing */
         }
@@ -684,6 +684,6 @@ namespace dots::io
         bool m_asyncWriting;
         bool m_readDispatching;
         stream_t m_stream;
-        payload_cache_t* m_payloadCache;
+        std::shared_ptr<payload_cache_t> m_payloadCache;
     };
 }
diff --git a/lib/include/dots/io/channels/TcpChannel.h b/lib/include/dots/io/channels/TcpChannel.h
index 3b544c0..65f39ab 100644
--- a/lib/include/dots/io/channels/TcpChannel.h
+++ b/lib/include/dots/io/channels/TcpChannel.h
@@ -47,7 +47,7 @@ namespace dots::io::details
          * @param key
          * @param socket
          */
-        GenericTcpChannel(key_t key, asio::ip::tcp::socket&& socket, payload_cache_t* payloadCache);
+        GenericTcpChannel(key_t key, asio::ip::tcp::socket&& socket, std::shared_ptr<payload_cache_t> payloadCache);
         GenericTcpChannel(const GenericTcpChannel& other) = delete;
         GenericTcpChannel(GenericTcpChannel&& other) = delete;
         ~GenericTcpChannel() override = default;
diff --git a/lib/include/dots/io/channels/TcpListener.h b/lib/include/dots/io/channels/TcpListener.h
index 44449eb..74d6b14 100644
--- a/lib/include/dots/io/channels/TcpListener.h
+++ b/lib/include/dots/io/channels/TcpListener.h
@@ -35,7 +35,7 @@ namespace dots::io::details
         std::string m_port;
         asio::ip::tcp::acceptor m_acceptor;
         asio::ip::tcp::socket m_socket;
-        payload_cache_t m_payloadCache;
+        std::shared_ptr<payload_cache_t> m_payloadCache;
     };
 
     extern template struct GenericTcpListener<v1::TcpChannel>;
diff --git a/lib/include/dots/io/channels/UdsChannel.h b/lib/include/dots/io/channels/UdsChannel.h
index aae7614..5191932 100644
--- a/lib/include/dots/io/channels/UdsChannel.h
+++ b/lib/include/dots/io/channels/UdsChannel.h
@@ -16,7 +16,7 @@ namespace dots::io::posix::details
 
         GenericUdsChannel(key_t key, asio::io_context& ioContext, const Endpoint& endpoint);
         GenericUdsChannel(key_t key, asio::io_context& ioContext, std::string_view path);
-        GenericUdsChannel(key_t key, asio::local::stream_protocol::socket&& socket, payload_cache_t* payloadCache);
+        GenericUdsChannel(key_t key, asio::local::stream_protocol::socket&& socket, std::shared_ptr<payload_cache_t> payloadCache);
         GenericUdsChannel(const GenericUdsChannel& other) = delete;
         GenericUdsChannel(GenericUdsChannel&& other) = delete;
         virtual ~GenericUdsChannel() noexcept = default;
diff --git a/lib/include/dots/io/channels/UdsListener.h b/lib/include/dots/io/channels/UdsListener.h
index abe8f6c..d307ac9 100644
--- a/lib/include/dots/io/channels/UdsListener.h
+++ b/lib/include/dots/io/channels/UdsListener.h
@@ -34,7 +34,7 @@ namespace dots::io::posix::details
         asio::local::stream_protocol::endpoint m_endpoint;
         asio::local::stream_protocol::acceptor m_acceptor;
         asio::local::stream_protocol::socket m_socket;
-        payload_cache_t m_payloadCache;
+        std::shared_ptr<payload_cache_t> m_payloadCache;
     };
 
     extern template struct GenericUdsListener<v1::UdsChannel>;
diff --git a/lib/src/io/channels/TcpChannel.cpp b/lib/src/io/channels/TcpChannel.cpp
index 2079e98..21de884 100644
--- a/lib/src/io/channels/TcpChannel.cpp
+++ b/lib/src/io/channels/TcpChannel.cpp
@@ -63,8 +63,8 @@ namespace dots::io::details
     }
 
     template <typename Serializer, TransmissionFormat TransmissionFormat>
-    GenericTcpChannel<Serializer, TransmissionFormat>::GenericTcpChannel(key_t key, asio::ip::tcp::socket&& socket_, payload_cache_t* payloadCache) :
-        base_t(key, std::move(socket_), payloadCache),
+    GenericTcpChannel<Serializer, TransmissionFormat>::GenericTcpChannel(key_t key, asio::ip::tcp::socket&& socket_, std::shared_ptr<payload_cache_t> payloadCache) :
+        base_t(key, std::move(socket_), std::move(payloadCache)),
         m_resolver( stream().get_executor())
     {
         if (stream().is_open())
diff --git a/lib/src/io/channels/TcpListener.cpp b/lib/src/io/channels/TcpListener.cpp
index b3850d3..b434989 100644
--- a/lib/src/io/channels/TcpListener.cpp
+++ b/lib/src/io/channels/TcpListener.cpp
@@ -17,7 +17,7 @@ namespace dots::io::details
         m_port{ std::move(port) },
         m_acceptor{ ioContext },
         m_socket{ ioContext },
-        m_payloadCache{ 0, buffer_t{} }
+        m_payloadCache{ std::make_shared<payload_cache_t>(0, buffer_t{}) }
     {
         try
         {
@@ -75,7 +75,7 @@ namespace dots::io::details
                 }
 
                 // note: this move is explicitly allowed according to the Boost ASIO v1.72 documentation of the socket
-                processAccept(make_channel<TChannel>(std::move(m_socket), &m_payloadCache));
+                processAccept(make_channel<TChannel>(std::move(m_socket), m_payloadCache));
             }
             catch (const std::exception& e)
             {
diff --git a/lib/src/io/channels/UdsChannel.cpp b/lib/src/io/channels/UdsChannel.cpp
index f5eebeb..26c0c23 100644
--- a/lib/src/io/channels/UdsChannel.cpp
+++ b/lib/src/io/channels/UdsChannel.cpp
@@ -32,8 +32,8 @@ namespace dots::io::posix::details
     }
 
     template <typename Serializer, TransmissionFormat TransmissionFormat>
-    GenericUdsChannel<Serializer, TransmissionFormat>::GenericUdsChannel(key_t key, asio::local::stream_protocol::socket&& socket_, payload_cache_t* payloadCache) :
-        base_t(key, std::move(socket_), payloadCache)
+    GenericUdsChannel<Serializer, TransmissionFormat>::GenericUdsChannel(key_t key, asio::local::stream_protocol::socket&& socket_, std::shared_ptr<payload_cache_t> payloadCache) :
+        base_t(key, std::move(socket_), std::move(payloadCache))
     {
         IgnorePipeSignals();
 
diff --git a/lib/src/io/channels/UdsListener.cpp b/lib/src/io/channels/UdsListener.cpp
index a052332..416a010 100644
--- a/lib/src/io/channels/UdsListener.cpp
+++ b/lib/src/io/channels/UdsListener.cpp
@@ -18,7 +18,7 @@ namespace dots::io::posix::details
         m_endpoint{ path.data() },
         m_acceptor{ ioContext },
         m_socket{ ioContext },
-        m_payloadCache{ 0, UdsChannel::buffer_t{} }
+        m_payloadCache{ std::make_shared<payload_cache_t>(0, UdsChannel::buffer_t{}) }
     {
         try
         {
@@ -77,7 +77,7 @@ namespace dots::io::posix::details
                 }
 
                 // note: this move is explicitly allowed according to the ASIO v1.72 documentation of the socket
-                processAccept(make_channel<TChannel>(std::move(m_socket), &m_payloadCache));
+                processAccept(make_channel<TChannel>(std::move(m_socket), m_payloadCache));
             }
             catch (const std::exception& e)
             {
-- 
2.43.0


From e37fb64035ddddaca4d4a0fdd22bc87a2c185e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:06 +0000
Subject: [PATCH 17/55] fix: don't leave incomplete transmissions in the output
 or exceed its limit

---
 .../dots/io/channels/AsyncStreamChannel.h     | 43 ++++++++++++++++---
 1 file changed, 36 insertions(+), 7 deletions(-)

diff --git a/lib/include/dots/io/channels/AsyncStreamChannel.h b/lib/include/dots/io/channels/AsyncStreamChannel.h
index 2b322e1..eb45f06 100644
--- a/lib/include/dots/io/channels/AsyncStreamChannel.h
+++ b/lib/include/dots/io/channels/AsyncStreamChannel.h
@@ -4,6 +4,7 @@
 #define DOTS_ACKNOWLEDGE_DEPRECATION_OF_DotsTransportHeader_destinationGroup
 #define DOTS_ACKNOWLEDGE_DEPRECATION_OF_DotsTransportHeader_nameSpace
 #define DOTS_ACKNOWLEDGE_DEPRECATION_OF_DotsTransportHeader_destinationClientId
+#include <limits>
 #include <optional>
 #include <dots/asio.h>
 #include <dots/type/Registry.h>
@@ -538,6 +539,20 @@ namespace dots::io
             }
         }
 
+        /*!
+         * @brief Verify that further data can be appended to the write buffer.
+         *
+         * @exception std::runtime_error Thrown if the outstanding data exceeds
+         * the maximum size.
+         */
+        void verifyWriteBufferSize()
+        {
+            if (m_serializer.output().size() > WriteBufferMaxSize)
+            {
+                throw std::runtime_error{ "async write buffer exceeded maximum size" };
+            }
+        }
+
         /*!
          * @brief Serialize a transmission into the current write buffer.
          *
@@ -555,10 +570,7 @@ namespace dots::io
          */
         iterator_t serializeTransmission(const DotsHeader& header, const type::Struct& instance)
         {
-            if (m_serializer.output().size() > WriteBufferMaxSize)
-            {
-                throw std::runtime_error{ "async write buffer exceeded maximum size" };
-            }
+            verifyWriteBufferSize();
 
             if constexpr (TransmissionFormat == TransmissionFormat::v1)
             {
@@ -596,7 +608,14 @@ namespace dots::io
                     }
                 }
 
-                uint16_t serializedHeaderSize = static_cast<uint16_t>(serializer.serialize(transportHeader));
+                size_t headerSize = serializer.serialize(transportHeader);
+
+                if (headerSize > std::numeric_limits<uint16_t>::max())
+                {
+                    throw std::runtime_error{ "transmission header exceeded maximum size" };
+                }
+
+                uint16_t serializedHeaderSize = static_cast<uint16_t>(headerSize);
                 auto* serializedHeaderSizeData = reinterpret_cast<uint8_t*>(&serializedHeaderSize);
                 std::vector<uint8_t> serializedHeader = std::move(serializer.output());
 
@@ -618,8 +637,17 @@ namespace dots::io
                 writeBuffer.resize(writeBuffer.size() + TransmissionSizeSize);
 
                 // serialize header and instance
-                m_serializer.serialize(header);
-                m_serializer.serialize(instance, *header.attributes);
+                try
+                {
+                    m_serializer.serialize(header);
+                    m_serializer.serialize(instance, *header.attributes);
+                }
+                catch (...)
+                {
+                    // note: an incomplete transmission must not remain in the write buffer
+                    writeBuffer.resize(beginIndex);
+                    throw;
+                }
 
                 // serialize transmission size into previously created storage
                 // area. note that the transmission size is encoded as a fixed size
@@ -665,6 +693,7 @@ namespace dots::io
 
                 if (transmission.id() == cacheId)
                 {
+                    verifyWriteBufferSize();
                     writeBuffer.insert(writeBuffer.end(), cacheBuffer.begin(), cacheBuffer.end());
                 }
                 else
-- 
2.43.0


From ff1cc3a58f12705e88cf13cc44c0a7e6bf6ceda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:06 +0000
Subject: [PATCH 18/55] fix: transmit exactly the announced properties via
 WebSocket channels, also after a failed transmission

---
 lib/src/io/channels/WebSocketChannel.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/lib/src/io/channels/WebSocketChannel.cpp b/lib/src/io/channels/WebSocketChannel.cpp
index 733056b..a987215 100644
--- a/lib/src/io/channels/WebSocketChannel.cpp
+++ b/lib/src/io/channels/WebSocketChannel.cpp
@@ -92,12 +92,13 @@ namespace dots::io
 
     void WebSocketChannel::transmitImpl(const DotsHeader& header, const type::Struct& instance)
     {
-        m_serializer.writer().writeArrayBegin();
-        m_serializer.serialize(header);
-        m_serializer.serialize(instance);
-        m_serializer.writer().writeArrayEnd();
+        // note: a separate serializer ensures that nothing of a failed transmission remains in the output
+        serialization::JsonSerializer serializer{ { serialization::TextOptions::Minified } };
+        serializer.writer().writeArrayBegin();
+        serializer.serialize(header);
+        serializer.serialize(instance, *header.attributes);
+        serializer.writer().writeArrayEnd();
 
-        m_stream.write(asio::buffer(m_serializer.output()));
-        m_serializer.output().clear();
+        m_stream.write(asio::buffer(serializer.output()));
     }
 }
-- 
2.43.0


From 56b114638888549fafde5c7e4218c1640ae80df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:29 +0000
Subject: [PATCH 19/55] fix: report failures of a channel only once and deliver
 nothing after it was stopped

---
 lib/src/io/Channel.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/lib/src/io/Channel.cpp b/lib/src/io/Channel.cpp
index b582bef..c937d9d 100644
--- a/lib/src/io/Channel.cpp
+++ b/lib/src/io/Channel.cpp
@@ -120,6 +120,11 @@ namespace dots::io
 
     void Channel::processReceive(Transmission transmission) noexcept
     {
+        if (!m_asyncReceiving)
+        {
+            return;
+        }
+
         try
         {
             importDependencies(transmission.instance());
@@ -127,10 +132,16 @@ namespace dots::io
             // note: if the receive handler yields 'false', the channel must no
             // longer be accessed afterwards, because it might have already been
             // deleted by the callee prior to returning
+            std::weak_ptr<Channel> channel = weak_from_this();
+
             if ((*m_receiveHandler)(std::move(transmission)))
             {
                 asyncReceiveImpl();
             }
+            else if (auto channel_ = channel.lock(); channel_ != nullptr)
+            {
+                channel_->m_asyncReceiving = false;
+            }
         }
         catch (...)
         {
@@ -140,6 +151,11 @@ namespace dots::io
 
     void Channel::processError(std::exception_ptr ePtr)
     {
+        if (!m_asyncReceiving)
+        {
+            return;
+        }
+
         try
         {
             m_asyncReceiving = false;
-- 
2.43.0


From 2d8f4f7b1b36fe4929eec5fbd81ae5cac42ac67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:06 +0000
Subject: [PATCH 20/55] fix: don't access the channel of a guest after its
 connection was closed by a subscriber

---
 lib/include/dots/GuestTransceiver.h |  2 +-
 lib/src/GuestTransceiver.cpp        | 10 +++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/include/dots/GuestTransceiver.h b/lib/include/dots/GuestTransceiver.h
index 8324d57..85ba2ff 100644
--- a/lib/include/dots/GuestTransceiver.h
+++ b/lib/include/dots/GuestTransceiver.h
@@ -263,7 +263,7 @@ namespace dots
         bool handleTransmission(Connection& connection, io::Transmission transmission);
         void handleTransitionImpl(Connection& connection, std::exception_ptr ePtr) noexcept override;
 
-        std::unique_ptr<Connection> m_hostConnection;
+        std::shared_ptr<Connection> m_hostConnection;
         type::DescriptorMap m_preloadPublishTypes;
         type::DescriptorMap m_preloadSubscribeTypes;
         std::set<std::string> m_joinedGroups;
diff --git a/lib/src/GuestTransceiver.cpp b/lib/src/GuestTransceiver.cpp
index d759a12..6ebb9df 100644
--- a/lib/src/GuestTransceiver.cpp
+++ b/lib/src/GuestTransceiver.cpp
@@ -47,7 +47,7 @@ namespace dots
         m_preloadPublishTypes = std::move(preloadPublishTypes);
         m_preloadSubscribeTypes = std::move(preloadSubscribeTypes);
 
-        m_hostConnection = std::make_unique<Connection>(std::move(channel), false, std::move(authSecret));
+        m_hostConnection = std::make_shared<Connection>(std::move(channel), false, std::move(authSecret));
         m_hostConnection->asyncReceive(registry(), nullptr, selfName(),
             { &GuestTransceiver::handleTransmission, this },
             { &GuestTransceiver::handleTransition, this }
@@ -122,10 +122,14 @@ namespace dots
         }
     }
 
-    bool GuestTransceiver::handleTransmission(Connection&/* connection*/, io::Transmission transmission)
+    bool GuestTransceiver::handleTransmission(Connection& connection, io::Transmission transmission)
     {
+        // ensure that the connection is alive until the handler returns,
+        // because it might get closed during processing of the transmission
+        std::shared_ptr<Connection> connectionPtr = m_hostConnection;
         dispatcher().dispatch(transmission);
-        return true;
+
+        return !connection.closed();
     }
 
     void GuestTransceiver::handleTransitionImpl(Connection& connection, std::exception_ptr/* e*/) noexcept
-- 
2.43.0


From 038c353269620eaca2597ee7b3b12b9e6bb97312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:29 +0000
Subject: [PATCH 21/55] fix: keep listening when a client fails to connect and
 never access destroyed listeners

---
 lib/include/dots/io/Listener.h            |  4 ++
 lib/src/HostTransceiver.cpp               | 24 +++++++---
 lib/src/io/Listener.cpp                   | 17 +++++++-
 lib/src/io/channels/TcpListener.cpp       | 35 +++++++++------
 lib/src/io/channels/UdsListener.cpp       | 35 +++++++++------
 lib/src/io/channels/WebSocketListener.cpp | 53 +++++++++++++----------
 6 files changed, 112 insertions(+), 56 deletions(-)

diff --git a/lib/include/dots/io/Listener.h b/lib/include/dots/io/Listener.h
index 32fddc6..7648d88 100644
--- a/lib/include/dots/io/Listener.h
+++ b/lib/include/dots/io/Listener.h
@@ -31,8 +31,12 @@ namespace dots::io
         void processError(const std::string& what);
         void verifyErrorCode(std::error_code errorCode);
 
+        std::weak_ptr<Listener*> weakThis() const;
+
     private:
 
+        std::shared_ptr<Listener*> m_this = std::make_shared<Listener*>(this);
+
         bool m_asyncAcceptActive = false;
         std::optional<accept_handler_t> m_acceptHandler;
         std::optional<error_handler_t> m_errorHandler;
diff --git a/lib/src/HostTransceiver.cpp b/lib/src/HostTransceiver.cpp
index 69bc309..a77db4c 100644
--- a/lib/src/HostTransceiver.cpp
+++ b/lib/src/HostTransceiver.cpp
@@ -117,12 +117,20 @@ namespace dots
 
     bool HostTransceiver::handleListenAccept(io::Listener&/* listener*/, io::channel_ptr_t channel)
     {
-        auto connection = std::make_shared<Connection>(std::move(channel), true);
-        connection->asyncReceive(registry(), m_authManager.get(), selfName(),
-            { &HostTransceiver::handleTransmission, this },
-            { &HostTransceiver::handleTransition, this }
-        );
-        m_guestConnections.emplace(connection.get(), connection);
+        try
+        {
+            auto connection = std::make_shared<Connection>(std::move(channel), true);
+            connection->asyncReceive(registry(), m_authManager.get(), selfName(),
+                { &HostTransceiver::handleTransmission, this },
+                { &HostTransceiver::handleTransition, this }
+            );
+            m_guestConnections.emplace(connection.get(), connection);
+        }
+        catch (const std::exception& e)
+        {
+            // note: this only affects the connection that is being established
+            LOG_ERROR_S("error while accepting incoming channel -> " << e.what());
+        }
 
         return true;
     }
@@ -137,6 +145,10 @@ namespace dots
         {
             LOG_ERROR_S("error while listening for incoming channels -> " << e.what());
         }
+        catch (...)
+        {
+            LOG_ERROR_S("unknown error while listening for incoming channels");
+        }
 
         m_listeners.erase(&listener);
     }
diff --git a/lib/src/io/Listener.cpp b/lib/src/io/Listener.cpp
index 11cc860..e842b45 100644
--- a/lib/src/io/Listener.cpp
+++ b/lib/src/io/Listener.cpp
@@ -19,11 +19,18 @@ namespace dots::io
 
     void Listener::processAccept(channel_ptr_t channel)
     {
+        if (!m_asyncAcceptActive)
+        {
+            return;
+        }
+
+        std::weak_ptr<Listener*> weakThis_ = weakThis();
+
         if ((*m_acceptHandler)(*this, std::move(channel)))
         {
             asyncAcceptImpl();
         }
-        else
+        else if (!weakThis_.expired())
         {
             m_asyncAcceptActive = false;
             m_acceptHandler = std::nullopt;
@@ -33,8 +40,9 @@ namespace dots::io
 
     void Listener::processError(std::exception_ptr ePtr)
     {
-        if (m_errorHandler != std::nullopt)
+        if (m_asyncAcceptActive)
         {
+            m_asyncAcceptActive = false;
             (*m_errorHandler)(*this, ePtr);
         }
     }
@@ -51,4 +59,9 @@ namespace dots::io
             throw std::system_error{ errorCode };
         }
     }
+
+    std::weak_ptr<Listener*> Listener::weakThis() const
+    {
+        return m_this;
+    }
 }
diff --git a/lib/src/io/channels/TcpListener.cpp b/lib/src/io/channels/TcpListener.cpp
index b434989..4eccd72 100644
--- a/lib/src/io/channels/TcpListener.cpp
+++ b/lib/src/io/channels/TcpListener.cpp
@@ -1,6 +1,7 @@
 // SPDX-License-Identifier: LGPL-3.0-only
 // Copyright 2015-2022 Thomas Schaetzlein <thomas@pnxs.de>, Christopher Gerlach <gerlachch@gmx.com>
 #include <dots/io/channels/TcpListener.h>
+#include <dots/tools/logging.h>
 
 namespace dots::io::details
 {
@@ -46,9 +47,9 @@ namespace dots::io::details
     template <typename TChannel>
     void GenericTcpListener<TChannel>::asyncAcceptImpl()
     {
-        m_acceptor.async_accept(m_socket, [this](const boost::system::error_code& error)
+        m_acceptor.async_accept(m_socket, [this, this_{ weakThis() }](const boost::system::error_code& error)
         {
-            if (error == asio::error::operation_aborted || !m_acceptor.is_open())
+            if (this_.expired() || error == asio::error::operation_aborted || !m_acceptor.is_open())
             {
                 return;
             }
@@ -59,6 +60,8 @@ namespace dots::io::details
                 return;
             }
 
+            channel_ptr_t channel;
+
             try
             {
                 m_socket.non_blocking(true);
@@ -75,21 +78,27 @@ namespace dots::io::details
                 }
 
                 // note: this move is explicitly allowed according to the Boost ASIO v1.72 documentation of the socket
-                processAccept(make_channel<TChannel>(std::move(m_socket), m_payloadCache));
+                channel = make_channel<TChannel>(std::move(m_socket), m_payloadCache);
             }
             catch (const std::exception& e)
             {
-                try
-                {
-                    processError(std::string{ "failed to configure TCP socket -> " } + e.what());
+                // note: this only affects the connection that is being established
+                LOG_ERROR_S("failed to configure TCP socket -> " << e.what());
 
-                    m_socket.shutdown(asio::ip::tcp::socket::shutdown_both);
-                    m_socket.close();
-                }
-                catch (const std::exception& e)
-                {
-                    processError(std::string{ "failed to shutdown and close TCP socket -> " } + e.what());
-                }
+                boost::system::error_code ignored;
+                m_socket.close(ignored);
+                asyncAcceptImpl();
+
+                return;
+            }
+
+            try
+            {
+                processAccept(std::move(channel));
+            }
+            catch (...)
+            {
+                processError(std::current_exception());
             }
         });
     }
diff --git a/lib/src/io/channels/UdsListener.cpp b/lib/src/io/channels/UdsListener.cpp
index 416a010..0d56da5 100644
--- a/lib/src/io/channels/UdsListener.cpp
+++ b/lib/src/io/channels/UdsListener.cpp
@@ -3,6 +3,7 @@
 #include <dots/asio.h>
 #if defined(BOOST_ASIO_HAS_LOCAL_SOCKETS)
 #include <dots/io/channels/UdsListener.h>
+#include <dots/tools/logging.h>
 
 namespace dots::io::posix::details
 {
@@ -50,9 +51,9 @@ namespace dots::io::posix::details
     template <typename TChannel>
     void GenericUdsListener<TChannel>::asyncAcceptImpl()
     {
-        m_acceptor.async_accept(m_socket, [this](const boost::system::error_code& error)
+        m_acceptor.async_accept(m_socket, [this, this_{ weakThis() }](const boost::system::error_code& error)
         {
-            if (error == asio::error::operation_aborted || !m_acceptor.is_open())
+            if (this_.expired() || error == asio::error::operation_aborted || !m_acceptor.is_open())
             {
                 return;
             }
@@ -63,6 +64,8 @@ namespace dots::io::posix::details
                 return;
             }
 
+            channel_ptr_t channel;
+
             try
             {
                 m_socket.non_blocking(true);
@@ -77,21 +80,27 @@ namespace dots::io::posix::details
                 }
 
                 // note: this move is explicitly allowed according to the ASIO v1.72 documentation of the socket
-                processAccept(make_channel<TChannel>(std::move(m_socket), m_payloadCache));
+                channel = make_channel<TChannel>(std::move(m_socket), m_payloadCache);
             }
             catch (const std::exception& e)
             {
-                try
-                {
-                    processError(std::string{ "failed to configure UDS socket -> " } + e.what());
+                // note: this only affects the connection that is being established
+                LOG_ERROR_S("failed to configure UDS socket -> " << e.what());
 
-                    m_socket.shutdown(asio::local::stream_protocol::socket::shutdown_both);
-                    m_socket.close();
-                }
-                catch (const std::exception& e)
-                {
-                    processError(std::string{ "failed to shutdown and close UDS socket -> " } + e.what());
-                }
+                boost::system::error_code ignored;
+                m_socket.close(ignored);
+                asyncAcceptImpl();
+
+                return;
+            }
+
+            try
+            {
+                processAccept(std::move(channel));
+            }
+            catch (...)
+            {
+                processError(std::current_exception());
             }
         });
     }
diff --git a/lib/src/io/channels/WebSocketListener.cpp b/lib/src/io/channels/WebSocketListener.cpp
index 8f54ba3..474d8bd 100644
--- a/lib/src/io/channels/WebSocketListener.cpp
+++ b/lib/src/io/channels/WebSocketListener.cpp
@@ -3,6 +3,7 @@
 #include <dots/io/channels/WebSocketListener.h>
 #include <algorithm>
 #include <dots/io/channels/WebSocketChannel.h>
+#include <dots/tools/logging.h>
 
 namespace dots::io
 {
@@ -44,21 +45,23 @@ namespace dots::io
 
     void WebSocketListener::asyncAcceptImpl()
     {
-        m_acceptor.async_accept(m_socket, [this](const boost::system::error_code& error)
+        m_acceptor.async_accept(m_socket, [this, this_{ weakThis() }](const boost::system::error_code& error)
         {
-            try
+            if (this_.expired() || error == asio::error::operation_aborted || !m_acceptor.is_open())
             {
-                if (error == asio::error::operation_aborted || !m_acceptor.is_open())
-                {
-                    return;
-                }
+                return;
+            }
 
-                if (error)
-                {
-                    processError(std::make_exception_ptr(std::runtime_error{ "failed listening on WebSocket endpoint at address '" + m_address + ":" + m_port + "' -> " + error.message() }));
-                    return;
-                }
+            if (error)
+            {
+                processError(std::make_exception_ptr(std::runtime_error{ "failed listening on WebSocket endpoint at address '" + m_address + ":" + m_port + "' -> " + error.message() }));
+                return;
+            }
+
+            channel_ptr_t channel;
 
+            try
+            {
                 // note: this move is explicitly allowed according to the Boost ASIO v1.72 documentation of the socket
                 WebSocketChannel::ws_stream_t stream{ std::move(m_socket) };
 
@@ -71,21 +74,27 @@ namespace dots::io
 
                 stream.accept();
 
-                processAccept(make_channel<WebSocketChannel>(std::move(stream)));
+                channel = make_channel<WebSocketChannel>(std::move(stream));
             }
             catch (const std::exception& e)
             {
-                try
-                {
-                    processError(std::string{ "failed to configure WebSocket stream -> " } + e.what());
+                // note: this only affects the connection that is being established
+                LOG_ERROR_S("failed to configure WebSocket stream -> " << e.what());
 
-                    m_socket.shutdown(asio::ip::tcp::socket::shutdown_both);
-                    m_socket.close();
-                }
-                catch (const std::exception& e)
-                {
-                    processError(std::string{ "failed to shutdown and close WebSocket stream -> " } + e.what());
-                }
+                boost::system::error_code ignored;
+                m_socket.close(ignored);
+                asyncAcceptImpl();
+
+                return;
+            }
+
+            try
+            {
+                processAccept(std::move(channel));
+            }
+            catch (...)
+            {
+                processError(std::current_exception());
             }
         });
     }
-- 
2.43.0


From 9ccaf9428dca8b0e099afee3e14be0dfa5bda001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:17 +0000
Subject: [PATCH 22/55] fix: don't access local listeners and channels that
 were destroyed before they were linked

---
 lib/include/dots/io/channels/LocalChannel.h |  2 ++
 lib/src/io/channels/LocalChannel.cpp        |  5 +++++
 lib/src/io/channels/LocalListener.cpp       | 22 ++++++++++++++++-----
 3 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/lib/include/dots/io/channels/LocalChannel.h b/lib/include/dots/io/channels/LocalChannel.h
index e672e9b..fa319c9 100644
--- a/lib/include/dots/io/channels/LocalChannel.h
+++ b/lib/include/dots/io/channels/LocalChannel.h
@@ -20,6 +20,7 @@ namespace dots::io
         LocalChannel& operator = (LocalChannel&& rhs) = delete;
 
         void link(LocalChannel& other);
+        std::weak_ptr<LocalChannel*> weakThis() const;
 
     protected:
 
@@ -30,5 +31,6 @@ namespace dots::io
 
         std::reference_wrapper<asio::io_context> m_ioContext;
         std::weak_ptr<LocalChannel> m_peer;
+        std::shared_ptr<LocalChannel*> m_this = std::make_shared<LocalChannel*>(this);
     };
 }
diff --git a/lib/src/io/channels/LocalChannel.cpp b/lib/src/io/channels/LocalChannel.cpp
index abbc420..9b218b6 100644
--- a/lib/src/io/channels/LocalChannel.cpp
+++ b/lib/src/io/channels/LocalChannel.cpp
@@ -31,6 +31,11 @@ namespace dots::io
         m_peer = std::static_pointer_cast<LocalChannel>(other.shared_from_this());
     }
 
+    std::weak_ptr<LocalChannel*> LocalChannel::weakThis() const
+    {
+        return m_this;
+    }
+
     void LocalChannel::asyncReceiveImpl()
     {
         /* do nothing */
diff --git a/lib/src/io/channels/LocalListener.cpp b/lib/src/io/channels/LocalListener.cpp
index 0558e73..db2904a 100644
--- a/lib/src/io/channels/LocalListener.cpp
+++ b/lib/src/io/channels/LocalListener.cpp
@@ -12,12 +12,24 @@ namespace dots::io
 
     void LocalListener::accept(LocalChannel& peer)
     {
-        asio::post(m_ioContext.get(), [&]
+        asio::post(m_ioContext.get(), [this, this_{ weakThis() }, &peer, peer_{ peer.weakThis() }]
         {
-            auto channel = make_channel<LocalChannel>(static_cast<asio::io_context&>(m_ioContext));
-            peer.link(*channel);
-            channel->link(peer);
-            processAccept(std::move(channel));
+            if (this_.expired() || peer_.expired())
+            {
+                return;
+            }
+
+            try
+            {
+                auto channel = make_channel<LocalChannel>(static_cast<asio::io_context&>(m_ioContext));
+                peer.link(*channel);
+                channel->link(peer);
+                processAccept(std::move(channel));
+            }
+            catch (...)
+            {
+                processError(std::current_exception());
+            }
         });
     }
 
-- 
2.43.0


From bfcac3ec22292760ab568ea10a65777f4c6219c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:48 +0000
Subject: [PATCH 23/55] fix: don't continue connecting after resolving failed
 or the channel was destroyed

---
 lib/include/dots/io/channels/TcpChannel.h |  1 +
 lib/src/io/channels/TcpChannel.cpp        | 15 +++++++++++++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/lib/include/dots/io/channels/TcpChannel.h b/lib/include/dots/io/channels/TcpChannel.h
index 65f39ab..744540a 100644
--- a/lib/include/dots/io/channels/TcpChannel.h
+++ b/lib/include/dots/io/channels/TcpChannel.h
@@ -73,6 +73,7 @@ namespace dots::io::details
         std::optional<error_handler_t> m_ecb;
 
         asio::ip::tcp::resolver m_resolver;
+        std::shared_ptr<GenericTcpChannel*> m_this = std::make_shared<GenericTcpChannel*>(this);
     };
 
     extern template struct GenericTcpChannel<serialization::CborSerializer, TransmissionFormat::v1>;
diff --git a/lib/src/io/channels/TcpChannel.cpp b/lib/src/io/channels/TcpChannel.cpp
index 21de884..65d27cb 100644
--- a/lib/src/io/channels/TcpChannel.cpp
+++ b/lib/src/io/channels/TcpChannel.cpp
@@ -40,13 +40,24 @@ namespace dots::io::details
     GenericTcpChannel<Serializer, TransmissionFormat>::GenericTcpChannel(key_t key, asio::io_context& ioContext, std::string_view host, std::string_view port, std::function<void(const boost::system::error_code& error)> onConnect) :
         GenericTcpChannel(key, asio::ip::tcp::socket{ ioContext }, nullptr)
     {
-        asyncResolveEndpoint(host, port, [this, onConnect{ std::move(onConnect) }](auto& error, auto endpoint) {
+        asyncResolveEndpoint(host, port, [this, this_{ std::weak_ptr<GenericTcpChannel*>{ m_this } }, onConnect{ std::move(onConnect) }](auto& error, auto endpoint) {
+            if (this_.expired())
+            {
+                return;
+            }
+
             if (error)
             {
                 onConnect(error);
+                return;
             }
 
-            stream().async_connect(*endpoint, [this, endpoint, onConnect{ std::move(onConnect) }](const boost::system::error_code& error) {
+            stream().async_connect(*endpoint, [this, this_, endpoint, onConnect{ std::move(onConnect) }](const boost::system::error_code& error) {
+                if (this_.expired())
+                {
+                    return;
+                }
+
                 if (error)
                 {
                     onConnect(error);
-- 
2.43.0


From b0db1d0a0a1e771ccde77bcbaceb0bc565fd251d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:28 +0000
Subject: [PATCH 24/55] fix: report failures while configuring a connected
 socket instead of throwing from the event loop

---
 lib/src/io/channels/TcpChannel.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/lib/src/io/channels/TcpChannel.cpp b/lib/src/io/channels/TcpChannel.cpp
index 65d27cb..f0e8e18 100644
--- a/lib/src/io/channels/TcpChannel.cpp
+++ b/lib/src/io/channels/TcpChannel.cpp
@@ -65,8 +65,17 @@ namespace dots::io::details
                 }
                 else
                 {
-                    setDefaultSocketOptions();
-                    initEndpoints(Endpoint{ stream().local_endpoint() }, Endpoint{ stream().remote_endpoint() });
+                    try
+                    {
+                        setDefaultSocketOptions();
+                        initEndpoints(Endpoint{ stream().local_endpoint() }, Endpoint{ stream().remote_endpoint() });
+                    }
+                    catch (...)
+                    {
+                        onConnect(boost::system::error_code(boost::system::errc::io_error, boost::system::generic_category()));
+                        return;
+                    }
+
                     onConnect(error);
                 }
             });
-- 
2.43.0


From 89610a14e95aebadc3981ce6b36478063abc5919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:17 +0000
Subject: [PATCH 25/55] fix: don't access destroyed transceivers or
 applications when an application is destroyed

---
 lib/include/dots/Application.h |  2 +-
 lib/src/Application.cpp        | 29 ++++++++++++++++++++++-------
 2 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/lib/include/dots/Application.h b/lib/include/dots/Application.h
index e75a624..9e55be3 100644
--- a/lib/include/dots/Application.h
+++ b/lib/include/dots/Application.h
@@ -261,7 +261,7 @@ namespace dots
 
         std::optional<io::Endpoint> m_openEndpoint;
         std::vector<io::Endpoint> m_listenEndpoints;
-        std::unique_ptr<signal_set_storage> m_signals;
+        std::shared_ptr<signal_set_storage> m_signals;
         int m_exitCode;
         Transceiver* m_transceiver;
         std::optional<GuestTransceiver> m_guestTransceiverStorage;
diff --git a/lib/src/Application.cpp b/lib/src/Application.cpp
index a477bef..73b9aaf 100644
--- a/lib/src/Application.cpp
+++ b/lib/src/Application.cpp
@@ -44,8 +44,14 @@ namespace dots
 
         if (handleExitSignals)
         {
-            m_signals = std::make_unique<signal_set_storage>(ioContext());
-            m_signals->signalSet.async_wait([this](boost::system::error_code/* error*/, int/* signalNumber*/){ exit(); });
+            m_signals = std::make_shared<signal_set_storage>(ioContext());
+            m_signals->signalSet.async_wait([this, signals{ std::weak_ptr<signal_set_storage>{ m_signals } }](boost::system::error_code error, int/* signalNumber*/)
+            {
+                if (!signals.expired() && !error)
+                {
+                    exit();
+                }
+            });
         }
 
         for (;;)
@@ -85,8 +91,14 @@ namespace dots
 
         if (handleExitSignals)
         {
-            m_signals = std::make_unique<signal_set_storage>(ioContext());
-            m_signals->signalSet.async_wait([this](boost::system::error_code/* error*/, int/* signalNumber*/){ exit(); });
+            m_signals = std::make_shared<signal_set_storage>(ioContext());
+            m_signals->signalSet.async_wait([this, signals{ std::weak_ptr<signal_set_storage>{ m_signals } }](boost::system::error_code error, int/* signalNumber*/)
+            {
+                if (!signals.expired() && !error)
+                {
+                    exit();
+                }
+            });
         }
     }
 
@@ -98,7 +110,10 @@ namespace dots
 
     Application::~Application()
     {
-        ioContext().stop();
+        // note: the context must not be accessed via the transceiver while it is being destroyed
+        asio::io_context& ioContext_ = ioContext();
+        ioContext_.stop();
+        m_signals = nullptr;
 
         if (m_hostTransceiverStorage != std::nullopt)
         {
@@ -113,8 +128,8 @@ namespace dots
             global_transceiver_destroy();
         }
 
-        ioContext().restart();
-        ioContext().poll();
+        ioContext_.restart();
+        ioContext_.poll();
     }
 
     const Transceiver& Application::transceiver() const
-- 
2.43.0


From 6b77ace2b0cd0dad4c20631e81d3076daeebd2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:53 +0000
Subject: [PATCH 26/55] fix: report exceptions of posted handlers to the
 waiting caller

---
 lib/include/dots/io/Io.h | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/lib/include/dots/io/Io.h b/lib/include/dots/io/Io.h
index 61fe50e..7f1d604 100644
--- a/lib/include/dots/io/Io.h
+++ b/lib/include/dots/io/Io.h
@@ -33,14 +33,21 @@ namespace dots::io
 
             asio::post(ioContext, [promise{ std::move(promise) }, handler{ std::forward<Handler>(handler) }]() mutable
             {
-                if constexpr (std::is_same_v<return_t, void>)
+                try
                 {
-                    std::invoke(handler);
-                    promise.set_value();
+                    if constexpr (std::is_same_v<return_t, void>)
+                    {
+                        std::invoke(handler);
+                        promise.set_value();
+                    }
+                    else
+                    {
+                        promise.set_value(std::invoke(handler));
+                    }
                 }
-                else
+                catch (...)
                 {
-                    promise.set_value(std::invoke(handler));
+                    promise.set_exception(std::current_exception());
                 }
             });
 
-- 
2.43.0


From 2fb629ace6125f57237defefbb965da2607cf80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:53 +0000
Subject: [PATCH 27/55] fix: report failures while opening an application's
 connection and leave no dangling global transceiver

---
 lib/include/dots/Application.h | 14 ++++++++++++
 lib/src/Application.cpp        | 42 ++++++++++++++++++++++++++++------
 2 files changed, 49 insertions(+), 7 deletions(-)

diff --git a/lib/include/dots/Application.h b/lib/include/dots/Application.h
index 9e55be3..d6120a4 100644
--- a/lib/include/dots/Application.h
+++ b/lib/include/dots/Application.h
@@ -254,6 +254,20 @@ namespace dots
         const asio::io_context& ioContext() const;
         asio::io_context& ioContext();
 
+        /*!
+         * @brief Open the connection of the guest transceiver and wait until
+         * it is established.
+         *
+         * @param transceiver The guest transceiver to use.
+         *
+         * @param handleExitSignals Specifies whether the application should
+         * exit on SIGINT and SIGTERM.
+         *
+         * @exception std::exception Thrown if the connection could not be
+         * established.
+         */
+        void openGuestTransceiver(GuestTransceiver& transceiver, bool handleExitSignals);
+
         void handleGuestTransceiverTransition(const Connection& connection, std::exception_ptr ePtr);
 
         void parseGuestTransceiverArgs(int argc, char* argv[]);
diff --git a/lib/src/Application.cpp b/lib/src/Application.cpp
index 73b9aaf..c31dba5 100644
--- a/lib/src/Application.cpp
+++ b/lib/src/Application.cpp
@@ -23,7 +23,7 @@ namespace dots
         parseGuestTransceiverArgs(argc, argv);
         GuestTransceiver* transceiver;
 
-        if (m_guestTransceiverStorage == std::nullopt || &*m_guestTransceiverStorage == &global_transceiver())
+        if (m_guestTransceiverStorage == std::nullopt)
         {
             using transition_handler_t = GuestTransceiver::transition_handler_t;
             transceiver = &global_transceiver_create(GuestTransceiver(
@@ -32,16 +32,44 @@ namespace dots
                 type::Registry::StaticTypePolicy::All,
                 transition_handler_t{ &Application::handleGuestTransceiverTransition, this }
             ));
-            transceiver->open(io::global_publish_types(), io::global_subscribe_types(), *m_openEndpoint);
         }
         else
         {
             transceiver = &*m_guestTransceiverStorage;
-            transceiver->open(*m_openEndpoint);
         }
 
         m_transceiver = transceiver;
 
+        try
+        {
+            openGuestTransceiver(*transceiver, handleExitSignals);
+        }
+        catch (...)
+        {
+            asio::io_context& ioContext_ = ioContext();
+
+            // note: the transition handler of the global transceiver refers to this application
+            if (m_guestTransceiverStorage == std::nullopt)
+            {
+                global_transceiver_destroy();
+            }
+
+            ioContext_.restart();
+            throw;
+        }
+    }
+
+    void Application::openGuestTransceiver(GuestTransceiver& transceiver, bool handleExitSignals)
+    {
+        if (m_guestTransceiverStorage == std::nullopt)
+        {
+            transceiver.open(io::global_publish_types(), io::global_subscribe_types(), *m_openEndpoint);
+        }
+        else
+        {
+            transceiver.open(*m_openEndpoint);
+        }
+
         if (handleExitSignals)
         {
             m_signals = std::make_shared<signal_set_storage>(ioContext());
@@ -61,17 +89,17 @@ namespace dots
                 std::rethrow_exception(m_guestConnectionError);
             }
 
-            if (transceiver->connected())
+            if (transceiver.connected())
             {
                 break;
             }
-            else
+            else if (ioContext().run_one() == 0)
             {
-                ioContext().run_one();
+                throw std::runtime_error{ "connection to host was not established" };
             }
         }
 
-        transceiver->publish(DotsClient{ .id = transceiver->connection().selfId(), .running = true });
+        transceiver.publish(DotsClient{ .id = transceiver.connection().selfId(), .running = true });
     }
 
     Application::Application(const std::string& name, std::optional<GuestTransceiver> guestTransceiver/* = std::nullopt*/, bool handleExitSignals/* = true*/) :
-- 
2.43.0


From 8ecfa17031cf1d8efe43de04c1b6855fa9f0f541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:52 +0000
Subject: [PATCH 28/55] fix: transition handlers throwing unknown exceptions
 must not terminate the program

---
 lib/src/Transceiver.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/src/Transceiver.cpp b/lib/src/Transceiver.cpp
index effe097..dbc7c16 100644
--- a/lib/src/Transceiver.cpp
+++ b/lib/src/Transceiver.cpp
@@ -107,6 +107,10 @@ namespace dots
             {
                 LOG_ERROR_S("error in transition handler for " << connection.peerDescription() << " -> " << e.what());
             }
+            catch (...)
+            {
+                LOG_ERROR_S("unknown error in transition handler for " << connection.peerDescription());
+            }
         }
 
         handleTransitionImpl(connection, ePtr);
-- 
2.43.0


From 6baeb3e3ead371128e77656d648df1dd937655df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:52 +0000
Subject: [PATCH 29/55] fix: don't access connections that were closed or
 released by a handler

---
 lib/include/dots/Connection.h |  4 +++-
 lib/src/Connection.cpp        | 34 +++++++++++++++++++++++++++++++++-
 lib/src/GuestTransceiver.cpp  | 24 +++++++++++++++++++-----
 3 files changed, 55 insertions(+), 7 deletions(-)

diff --git a/lib/include/dots/Connection.h b/lib/include/dots/Connection.h
index 6c78ef2..bb456fe 100644
--- a/lib/include/dots/Connection.h
+++ b/lib/include/dots/Connection.h
@@ -1,6 +1,7 @@
 // SPDX-License-Identifier: LGPL-3.0-only
 // Copyright 2015-2022 Thomas Schaetzlein <thomas@pnxs.de>, Christopher Gerlach <gerlachch@gmx.com>
 #pragma once
+#include <memory>
 #include <string_view>
 #include <tuple>
 #include <optional>
@@ -41,7 +42,7 @@ namespace dots
      * @attention Outside of advanced use cases, a regular user is never
      * required to create or manage Connection objects themselves.
      */
-    struct Connection
+    struct Connection : std::enable_shared_from_this<Connection>
     {
         using id_t = uint32_t;
         static constexpr id_t UninitializedId = 0;
@@ -332,6 +333,7 @@ namespace dots
         static constexpr serialization::TextOptions StringOptions = { serialization::TextOptions::MultiLine };
 
         bool handleReceive(io::Transmission transmission);
+        bool handleReceiveImpl(io::Transmission transmission);
         void handleClose(std::exception_ptr ePtr);
 
         void handleHello(const DotsMsgHello& hello);
diff --git a/lib/src/Connection.cpp b/lib/src/Connection.cpp
index 65383cc..af3ccb2 100644
--- a/lib/src/Connection.cpp
+++ b/lib/src/Connection.cpp
@@ -126,11 +126,20 @@ namespace dots
             throw std::logic_error{ "only one async receive can be started on a connection" };
         }
 
+        // note: the transition handler might close and release the connection
+        std::shared_ptr<Connection> this_ = weak_from_this().lock();
+
         m_authManager = authManager;
         m_receiveHandler = std::move(receiveHandler);
         m_transitionHandler = std::move(transitionHandler);
 
         setConnectionState(DotsConnectionState::connecting);
+
+        if (m_connectionState == DotsConnectionState::closed)
+        {
+            throw std::runtime_error{ "connection was closed while it was being established" };
+        }
+
         m_channel->init(registry);
         m_channel->asyncReceive(
             { &Connection::handleReceive, this },
@@ -243,6 +252,27 @@ namespace dots
     }
 
     bool Connection::handleReceive(io::Transmission transmission)
+    {
+        // note: handlers might close the connection, which usually causes
+        // the owner to release it
+        std::shared_ptr<Connection> this_ = weak_from_this().lock();
+
+        try
+        {
+            return handleReceiveImpl(std::move(transmission));
+        }
+        catch (...)
+        {
+            if (m_connectionState == DotsConnectionState::closed)
+            {
+                return false;
+            }
+
+            throw;
+        }
+    }
+
+    bool Connection::handleReceiveImpl(io::Transmission transmission)
     {
         LOG_RECEIVE_TRANSMISSION(transmission.header(), *transmission.instance());
 
@@ -267,7 +297,7 @@ namespace dots
                 instance._assertHasProperties(expectedProperties); // note: subsets are allowed for backwards compatibility with old implementation
 
                 (*handler)(instance);
-                return true;
+                return m_connectionState != DotsConnectionState::closed;
             }
         }
         else
@@ -452,6 +482,8 @@ namespace dots
 
     void Connection::setConnectionState(DotsConnectionState state, std::exception_ptr e/* = nullptr*/)
     {
+        // note: the transition handler might release the connection
+        std::shared_ptr<Connection> this_ = weak_from_this().lock();
         m_connectionState = state;
 
         try
diff --git a/lib/src/GuestTransceiver.cpp b/lib/src/GuestTransceiver.cpp
index 6ebb9df..36b723b 100644
--- a/lib/src/GuestTransceiver.cpp
+++ b/lib/src/GuestTransceiver.cpp
@@ -48,10 +48,24 @@ namespace dots
         m_preloadSubscribeTypes = std::move(preloadSubscribeTypes);
 
         m_hostConnection = std::make_shared<Connection>(std::move(channel), false, std::move(authSecret));
-        m_hostConnection->asyncReceive(registry(), nullptr, selfName(),
-            { &GuestTransceiver::handleTransmission, this },
-            { &GuestTransceiver::handleTransition, this }
-        );
+
+        try
+        {
+            m_hostConnection->asyncReceive(registry(), nullptr, selfName(),
+                { &GuestTransceiver::handleTransmission, this },
+                { &GuestTransceiver::handleTransition, this }
+            );
+        }
+        catch (...)
+        {
+            m_hostConnection = nullptr;
+            throw;
+        }
+
+        if (m_hostConnection == nullptr)
+        {
+            throw std::runtime_error{ "connection was closed while it was being opened" };
+        }
 
         return *m_hostConnection;
     }
@@ -164,7 +178,7 @@ namespace dots
         catch (const std::exception& e)
         {
             LOG_ERROR_S("error while handling transition for connection " << connection.peerDescription() << " -> " << e.what());
-            m_hostConnection = nullptr;
+            connection.handleError(std::current_exception());
         }
     }
 }
-- 
2.43.0


From 3f07ce42be36481507631c16f8663f933c46afa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:48 +0000
Subject: [PATCH 30/55] fix: a client that doesn't complete the WebSocket
 handshake must not block the host

---
 .../dots/io/channels/WebSocketListener.h      |  4 +
 lib/src/io/channels/WebSocketListener.cpp     | 78 ++++++++++++++-----
 2 files changed, 62 insertions(+), 20 deletions(-)

diff --git a/lib/include/dots/io/channels/WebSocketListener.h b/lib/include/dots/io/channels/WebSocketListener.h
index 2baa38c..d9e1a56 100644
--- a/lib/include/dots/io/channels/WebSocketListener.h
+++ b/lib/include/dots/io/channels/WebSocketListener.h
@@ -4,6 +4,7 @@
 #include <dots/asio.h>
 #include <boost/beast.hpp>
 #include <dots/io/Listener.h>
+#include <dots/io/channels/WebSocketChannel.h>
 
 namespace dots::io
 {
@@ -24,9 +25,12 @@ namespace dots::io
 
     private:
 
+        void handleHandshake(WebSocketChannel::ws_stream_t& stream, const boost::system::error_code& error);
+
         std::string m_address;
         std::string m_port;
         asio::ip::tcp::acceptor m_acceptor;
         asio::ip::tcp::socket m_socket;
+        bool m_acceptPending;
     };
 }
diff --git a/lib/src/io/channels/WebSocketListener.cpp b/lib/src/io/channels/WebSocketListener.cpp
index 474d8bd..ea3d0a1 100644
--- a/lib/src/io/channels/WebSocketListener.cpp
+++ b/lib/src/io/channels/WebSocketListener.cpp
@@ -17,7 +17,8 @@ namespace dots::io
         m_address{ std::move(address) },
         m_port{ std::move(port) },
         m_acceptor{ ioContext },
-        m_socket{ ioContext }
+        m_socket{ ioContext },
+        m_acceptPending{ false }
     {
         try
         {
@@ -45,9 +46,24 @@ namespace dots::io
 
     void WebSocketListener::asyncAcceptImpl()
     {
+        // note: clients are accepted while the handshakes of others are pending
+        if (m_acceptPending)
+        {
+            return;
+        }
+
+        m_acceptPending = true;
+
         m_acceptor.async_accept(m_socket, [this, this_{ weakThis() }](const boost::system::error_code& error)
         {
-            if (this_.expired() || error == asio::error::operation_aborted || !m_acceptor.is_open())
+            if (this_.expired())
+            {
+                return;
+            }
+
+            m_acceptPending = false;
+
+            if (error == asio::error::operation_aborted || !m_acceptor.is_open())
             {
                 return;
             }
@@ -58,23 +74,25 @@ namespace dots::io
                 return;
             }
 
-            channel_ptr_t channel;
-
             try
             {
                 // note: this move is explicitly allowed according to the Boost ASIO v1.72 documentation of the socket
-                WebSocketChannel::ws_stream_t stream{ std::move(m_socket) };
+                auto stream = std::make_shared<WebSocketChannel::ws_stream_t>(std::move(m_socket));
 
-                stream.set_option(boost::beast::websocket::stream_base::timeout::suggested(boost::beast::role_type::server));
-                stream.set_option(boost::beast::websocket::stream_base::decorator([](boost::beast::websocket::response_type& res)
+                stream->set_option(boost::beast::websocket::stream_base::timeout::suggested(boost::beast::role_type::server));
+                stream->set_option(boost::beast::websocket::stream_base::decorator([](boost::beast::websocket::response_type& res)
                 {
                     res.set(boost::beast::http::field::server, std::string(BOOST_BEAST_VERSION_STRING) + " DOTS WebSocket server");
                     res.set(boost::beast::http::field::sec_websocket_protocol, WebSocketChannel::Subprotocol);
                 }));
 
-                stream.accept();
-
-                channel = make_channel<WebSocketChannel>(std::move(stream));
+                stream->async_accept([this, this_, stream](const boost::system::error_code& error)
+                {
+                    if (!this_.expired())
+                    {
+                        handleHandshake(*stream, error);
+                    }
+                });
             }
             catch (const std::exception& e)
             {
@@ -83,19 +101,39 @@ namespace dots::io
 
                 boost::system::error_code ignored;
                 m_socket.close(ignored);
-                asyncAcceptImpl();
-
-                return;
             }
 
-            try
-            {
-                processAccept(std::move(channel));
-            }
-            catch (...)
+            asyncAcceptImpl();
+        });
+    }
+
+    void WebSocketListener::handleHandshake(WebSocketChannel::ws_stream_t& stream, const boost::system::error_code& error)
+    {
+        channel_ptr_t channel;
+
+        try
+        {
+            if (error)
             {
-                processError(std::current_exception());
+                throw std::runtime_error{ "WebSocket handshake failed: " + error.message() };
             }
-        });
+
+            channel = make_channel<WebSocketChannel>(std::move(stream));
+        }
+        catch (const std::exception& e)
+        {
+            // note: this only affects the connection that is being established
+            LOG_ERROR_S("failed to configure WebSocket stream -> " << e.what());
+            return;
+        }
+
+        try
+        {
+            processAccept(std::move(channel));
+        }
+        catch (...)
+        {
+            processError(std::current_exception());
+        }
     }
 }
-- 
2.43.0


From 8ecf1cce91086531c5670b81770c1e9117f0fd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:37 +0000
Subject: [PATCH 31/55] fix: a local channel that can't be linked must not stop
 the listener

---
 lib/src/io/channels/LocalListener.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/lib/src/io/channels/LocalListener.cpp b/lib/src/io/channels/LocalListener.cpp
index db2904a..376641b 100644
--- a/lib/src/io/channels/LocalListener.cpp
+++ b/lib/src/io/channels/LocalListener.cpp
@@ -1,6 +1,7 @@
 // SPDX-License-Identifier: LGPL-3.0-only
 // Copyright 2015-2022 Thomas Schaetzlein <thomas@pnxs.de>, Christopher Gerlach <gerlachch@gmx.com>
 #include <dots/io/channels/LocalListener.h>
+#include <dots/tools/logging.h>
 
 namespace dots::io
 {
@@ -19,11 +20,24 @@ namespace dots::io
                 return;
             }
 
+            std::shared_ptr<LocalChannel> channel;
+
             try
             {
-                auto channel = make_channel<LocalChannel>(static_cast<asio::io_context&>(m_ioContext));
+                channel = make_channel<LocalChannel>(static_cast<asio::io_context&>(m_ioContext));
                 peer.link(*channel);
                 channel->link(peer);
+            }
+            catch (const std::exception& e)
+            {
+                // note: this only affects the connection that is being established
+                LOG_ERROR_S("failed to link local channel -> " << e.what());
+
+                return;
+            }
+
+            try
+            {
                 processAccept(std::move(channel));
             }
             catch (...)
-- 
2.43.0


From 7626984eaf2a4fda6d8aca2cf82d8c1dc54da9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:09 +0000
Subject: [PATCH 32/55] fix: an application must not wait forever when the host
 closes the connection of its transceiver

---
 lib/include/dots/GuestTransceiver.h | 10 ++++++++++
 lib/src/Application.cpp             |  2 +-
 lib/src/GuestTransceiver.cpp        |  5 +++++
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/lib/include/dots/GuestTransceiver.h b/lib/include/dots/GuestTransceiver.h
index 85ba2ff..b2e828e 100644
--- a/lib/include/dots/GuestTransceiver.h
+++ b/lib/include/dots/GuestTransceiver.h
@@ -79,6 +79,16 @@ namespace dots
          */
         bool connected() const;
 
+        /*!
+         * @brief Indicates whether a host connection is currently open in any
+         * state (e.g. while it is still being established).
+         *
+         * @return true If a connection has been opened and was not closed
+         * since.
+         * @return false Else.
+         */
+        bool hasConnection() const;
+
         /*!
          * @brief Get current host connection.
          *
diff --git a/lib/src/Application.cpp b/lib/src/Application.cpp
index c31dba5..54d209d 100644
--- a/lib/src/Application.cpp
+++ b/lib/src/Application.cpp
@@ -93,7 +93,7 @@ namespace dots
             {
                 break;
             }
-            else if (ioContext().run_one() == 0)
+            else if (!transceiver.hasConnection() || ioContext().run_one() == 0)
             {
                 throw std::runtime_error{ "connection to host was not established" };
             }
diff --git a/lib/src/GuestTransceiver.cpp b/lib/src/GuestTransceiver.cpp
index 36b723b..afd6285 100644
--- a/lib/src/GuestTransceiver.cpp
+++ b/lib/src/GuestTransceiver.cpp
@@ -30,6 +30,11 @@ namespace dots
         return m_hostConnection != nullptr && m_hostConnection->connected();
     }
 
+    bool GuestTransceiver::hasConnection() const
+    {
+        return m_hostConnection != nullptr;
+    }
+
     const Connection& GuestTransceiver::connection() const
     {
         return *m_hostConnection;
-- 
2.43.0


From 9646c0f7c97c7fa75ee4e6bc8fa6c17d0cbcc7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:55 +0000
Subject: [PATCH 33/55] fix: don't read beyond the CBOR input when reading
 integers or floats

---
 lib/include/dots/serialization/formats/CborReader.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/include/dots/serialization/formats/CborReader.h b/lib/include/dots/serialization/formats/CborReader.h
index d45a63e..96f0e62 100644
--- a/lib/include/dots/serialization/formats/CborReader.h
+++ b/lib/include/dots/serialization/formats/CborReader.h
@@ -67,6 +67,8 @@ namespace dots::serialization
         {
             using unsigned_t = std::make_unsigned_t<T>;
 
+            assertInputAvailable(1);
+
             if (uint8_t majorType = *inputData() & cbor_t::MajorType::Mask; majorType == cbor_t::MajorType::SignedInt)
             {
                 unsigned_t unsignedValue = readHead<unsigned_t>(cbor_t::MajorType::SignedInt);
@@ -164,10 +166,14 @@ namespace dots::serialization
                         value = static_cast<T>(static_cast<bool>(sign) ? -float64 : float64);
                     }
                 }
-                else/* if (numBytes == sizeof(float))*/
+                else if (numBytes == sizeof(float))
                 {
                     value = static_cast<T>(readPunnedContingentBytes<float>());
                 }
+                else
+                {
+                    throwException("encountered unexpected simple value when deserializing float", additionalInformation);
+                }
             }
         }
 
-- 
2.43.0


From c2cb83ad85aac3afd2cf45f590c4476692374b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:41 +0000
Subject: [PATCH 34/55] fix: don't dump a byte beyond the CBOR input in
 exceptions

---
 lib/src/serialization/formats/CborReader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/serialization/formats/CborReader.cpp b/lib/src/serialization/formats/CborReader.cpp
index f12c6f8..5591265 100644
--- a/lib/src/serialization/formats/CborReader.cpp
+++ b/lib/src/serialization/formats/CborReader.cpp
@@ -35,7 +35,7 @@ namespace dots::serialization
         throw SerializerException{msg,
                                   details,
                                   offset,
-                                  std::span(inputDataBegin(), inputDataEnd() + 1)};
+                                  std::span(inputDataBegin(), inputDataEnd())};
     }
 
 }
\ No newline at end of file
-- 
2.43.0


From 8ec6e1f924db27269240755cf0c9be4a1b41173c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:11 +0000
Subject: [PATCH 35/55] fix: skip CBOR strings, arrays and tags of any size
 completely and without recursion

---
 .../dots/serialization/formats/CborFormat.h   |  1 +
 .../dots/serialization/formats/CborReader.h   | 97 +++++--------------
 2 files changed, 27 insertions(+), 71 deletions(-)

diff --git a/lib/include/dots/serialization/formats/CborFormat.h b/lib/include/dots/serialization/formats/CborFormat.h
index f54f718..e46ddb5 100644
--- a/lib/include/dots/serialization/formats/CborFormat.h
+++ b/lib/include/dots/serialization/formats/CborFormat.h
@@ -15,6 +15,7 @@ namespace dots::serialization
             static constexpr uint8_t TextString = 0x60;
             static constexpr uint8_t Array = 0x80;
             static constexpr uint8_t Map = 0xA0;
+            static constexpr uint8_t Tag = 0xC0;
             static constexpr uint8_t SimpleOrFloat = 0xE0;
 
             static constexpr uint8_t IndefiniteArray = Array | 31;
diff --git a/lib/include/dots/serialization/formats/CborReader.h b/lib/include/dots/serialization/formats/CborReader.h
index 96f0e62..3f9deff 100644
--- a/lib/include/dots/serialization/formats/CborReader.h
+++ b/lib/include/dots/serialization/formats/CborReader.h
@@ -179,29 +179,17 @@ namespace dots::serialization
 
         void skip()
         {
-            assertInputAvailable(1);
-            uint8_t initialByte = readByte();
-            uint8_t majorType = initialByte & cbor_t::MajorType::Mask;
-            uint8_t additionalInformation = initialByte & cbor_t::AdditionalInformation::Mask;
-
-            auto any_of = [majorType](auto... majorTypes)
+            // number of items that still have to be skipped, including the items
+            // of arrays and maps
+            for (size_t numItems = 1; numItems > 0; --numItems)
             {
-                return (... || (majorType == majorTypes));
-            };
+                assertInputAvailable(1);
+                uint8_t initialByte = readByte();
+                uint8_t majorType = initialByte & cbor_t::MajorType::Mask;
+                uint8_t additionalInformation = initialByte & cbor_t::AdditionalInformation::Mask;
+                uint64_t value = additionalInformation;
 
-            auto consume = [&](size_t numBytes)
-            {
-                assertInputAvailable(numBytes);
-                inputData() += numBytes;
-            };
-
-            auto get_num_bytes = [&]() -> uint8_t
-            {
-                if (additionalInformation <= cbor_t::AdditionalInformation::MaxInplaceValue)
-                {
-                    return 0;
-                }
-                else
+                if (additionalInformation > cbor_t::AdditionalInformation::MaxInplaceValue)
                 {
                     if (additionalInformation > cbor_t::AdditionalInformation::FollowingBytes8)
                     {
@@ -209,21 +197,7 @@ namespace dots::serialization
                     }
 
                     uint8_t numBytes = 1 << (additionalInformation - cbor_t::AdditionalInformation::FollowingBytes1);
-                    return numBytes;
-                }
-            };
-
-            auto read_size = [&]
-            {
-                size_t value;
-                uint8_t numBytes = get_num_bytes();
-
-                if (additionalInformation <= cbor_t::AdditionalInformation::MaxInplaceValue)
-                {
-                    value = additionalInformation;
-                }
-                else
-                {
+                    assertInputAvailable(numBytes);
                     value = 0;
 
                     for (int16_t i = numBytes - 1; i >= 0; --i)
@@ -232,44 +206,25 @@ namespace dots::serialization
                     }
                 }
 
-                consume(numBytes);
-
-                return value;
-            };
-
-            if (any_of(cbor_t::MajorType::UnsignedInt, cbor_t::MajorType::SignedInt, cbor_t::MajorType::SimpleOrFloat))
-            {
-                size_t numBytes = get_num_bytes();
-                consume(numBytes);
-            }
-            else if (any_of(cbor_t::MajorType::ByteString, cbor_t::MajorType::TextString))
-            {
-                size_t size = read_size();
-                consume(size);
-            }
-            else if (any_of(cbor_t::MajorType::Array))
-            {
-                size_t size = read_size();
-
-                if (size > 0)
+                if (majorType == cbor_t::MajorType::ByteString || majorType == cbor_t::MajorType::TextString)
                 {
-                    while (size--)
-                    {
-                        skip();
-                    }
+                    assertInputAvailable(value);
+                    inputData() += value;
                 }
-            }
-            else if (any_of(cbor_t::MajorType::Map))
-            {
-                size_t size = read_size();
-
-                if (size > 0)
+                else if (majorType == cbor_t::MajorType::Array)
                 {
-                    while (size--)
-                    {
-                        skip();
-                        skip();
-                    }
+                    assertInputAvailable(value);
+                    numItems += value;
+                }
+                else if (majorType == cbor_t::MajorType::Map)
+                {
+                    assertInputAvailable(value);
+                    numItems += value;
+                    numItems += value;
+                }
+                else if (majorType == cbor_t::MajorType::Tag)
+                {
+                    numItems += 1;
                 }
             }
         }
-- 
2.43.0


From 0b4f268bcfc03337d6e16cafef4c510e81deafc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:51 +0000
Subject: [PATCH 36/55] fix: refuse CBOR integers that exceed the range of the
 signed type

---
 lib/include/dots/serialization/formats/CborReader.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lib/include/dots/serialization/formats/CborReader.h b/lib/include/dots/serialization/formats/CborReader.h
index 3f9deff..340a8a4 100644
--- a/lib/include/dots/serialization/formats/CborReader.h
+++ b/lib/include/dots/serialization/formats/CborReader.h
@@ -72,11 +72,13 @@ namespace dots::serialization
             if (uint8_t majorType = *inputData() & cbor_t::MajorType::Mask; majorType == cbor_t::MajorType::SignedInt)
             {
                 unsigned_t unsignedValue = readHead<unsigned_t>(cbor_t::MajorType::SignedInt);
+                assertInRange<T>(unsignedValue);
                 value = -1 - reinterpret_cast<const T&>(unsignedValue);
             }
             else
             {
                 unsigned_t unsignedValue = readHead<unsigned_t>(cbor_t::MajorType::UnsignedInt);
+                assertInRange<T>(unsignedValue);
                 value = reinterpret_cast<const T&>(unsignedValue);
             }
         }
@@ -245,6 +247,15 @@ namespace dots::serialization
             }
         }
 
+        template <typename T>
+        void assertInRange(std::make_unsigned_t<T> value) const
+        {
+            if (value > static_cast<std::make_unsigned_t<T>>(std::numeric_limits<T>::max()))
+            {
+                throwException("encountered integer that exceeds the value range", sizeof(T));
+            }
+        }
+
         uint8_t readByte()
         {
             return *inputData()++;
-- 
2.43.0


From 4e87cafef1dee035251720604c4aaf9725f56ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:27 +0000
Subject: [PATCH 37/55] fix: reading the begin of an indefinite CBOR map must
 not expect its end

---
 lib/include/dots/serialization/formats/CborReader.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/include/dots/serialization/formats/CborReader.h b/lib/include/dots/serialization/formats/CborReader.h
index 340a8a4..4112419 100644
--- a/lib/include/dots/serialization/formats/CborReader.h
+++ b/lib/include/dots/serialization/formats/CborReader.h
@@ -39,7 +39,7 @@ namespace dots::serialization
 
         void readMapBegin()
         {
-            readHead(cbor_t::MajorType::IndefiniteMapBreak);
+            readHead(cbor_t::MajorType::IndefiniteMap);
         }
 
         void readMapEnd()
-- 
2.43.0


From c20cbe7f5ecd4affb806eef7957aa036ed15c532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:17 +0000
Subject: [PATCH 38/55] fix: don't allocate memory for CBOR vectors that exceed
 the input

---
 lib/include/dots/serialization/CborSerializer.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/include/dots/serialization/CborSerializer.h b/lib/include/dots/serialization/CborSerializer.h
index 6046334..83b7cf3 100644
--- a/lib/include/dots/serialization/CborSerializer.h
+++ b/lib/include/dots/serialization/CborSerializer.h
@@ -133,7 +133,15 @@ namespace dots::serialization
         template <typename T>
         bool visitVectorBeginDerived(vector_t<T>& vector, const type::Descriptor<vector_t<T>>& descriptor)
         {
-            descriptor.fill(vector, reader().readArraySize());
+            size_t size = reader().readArraySize();
+
+            // note: every element requires at least one byte
+            if (size > reader().inputAvailable())
+            {
+                throw std::runtime_error{ "out of data" };
+            }
+
+            descriptor.fill(vector, size);
             return true;
         }
 
-- 
2.43.0


From 2737c2bfda2dc9190bef2241ba94e0f5145e3ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:17 +0000
Subject: [PATCH 39/55] fix: don't allocate read buffers of the size a peer
 claims

---
 lib/include/dots/io/channels/AsyncStreamChannel.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/include/dots/io/channels/AsyncStreamChannel.h b/lib/include/dots/io/channels/AsyncStreamChannel.h
index eb45f06..86fa3c1 100644
--- a/lib/include/dots/io/channels/AsyncStreamChannel.h
+++ b/lib/include/dots/io/channels/AsyncStreamChannel.h
@@ -381,7 +381,9 @@ namespace dots::io
                 size_t availableBytes = m_serializer.inputAvailable();
 
                 std::copy(m_serializer.inputData(), m_serializer.inputDataEnd(), m_readBuffer.begin());
-                m_readBuffer.resize(std::max(ReadBufferMinSize, requiredBytes));
+                // note: the required size is claimed by the peer, so the buffer
+                // only grows in relation to the data that was received
+                m_readBuffer.resize(std::max(ReadBufferMinSize, std::min(requiredBytes, 2 * availableBytes)));
                 m_serializer.setInput(m_readBuffer.data(), availableBytes);
 
                 uint8_t* readBufferBegin = m_readBuffer.data() + availableBytes;
-- 
2.43.0


From ee1fda3191aa4bc75b52003a3f38707952e29c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:35 +0000
Subject: [PATCH 40/55] fix: don't treat non-ASCII characters as whitespace or
 identifiers when reading text

---
 lib/include/dots/serialization/formats/TextReader.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/include/dots/serialization/formats/TextReader.h b/lib/include/dots/serialization/formats/TextReader.h
index 12a7d80..694a375 100644
--- a/lib/include/dots/serialization/formats/TextReader.h
+++ b/lib/include/dots/serialization/formats/TextReader.h
@@ -248,7 +248,7 @@ namespace dots::serialization
                 return identifierSymbols;
             }();
 
-            auto it = std::find_if_not(input().begin(), input().end(), [](char c){ return IdentifierSymbols[static_cast<size_t>(c)]; });
+            auto it = std::find_if_not(input().begin(), input().end(), [](char c){ return IdentifierSymbols[static_cast<unsigned char>(c)]; });
             size_t identifierSize = it == input().end() ? input().size() : std::distance(input().begin(), it);
             std::string_view identifier = input().substr(0, identifierSize);
             inputAdvance(identifierSize);
@@ -511,7 +511,7 @@ namespace dots::serialization
 
         void consumeWhitespace()
         {
-            while (!input().empty() && input().front() < '!')
+            while (!input().empty() && static_cast<unsigned char>(input().front()) < '!')
             {
                 inputAdvance(1);
             }
-- 
2.43.0


From 8c2014c5c4e5825a05d4c6e4cf399662bc78fbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:13 +0000
Subject: [PATCH 41/55] fix: skipping incomplete or deeply nested text must
 neither hang nor exhaust the stack

---
 .../dots/serialization/formats/TextReader.h   | 71 +++++++++++++------
 1 file changed, 48 insertions(+), 23 deletions(-)

diff --git a/lib/include/dots/serialization/formats/TextReader.h b/lib/include/dots/serialization/formats/TextReader.h
index 694a375..cbf7388 100644
--- a/lib/include/dots/serialization/formats/TextReader.h
+++ b/lib/include/dots/serialization/formats/TextReader.h
@@ -280,6 +280,54 @@ namespace dots::serialization
         }
 
         void skip()
+        {
+            const size_t nestingLevel = m_nesting.size();
+
+            do
+            {
+                const char* begin = inputData();
+
+                if (m_nesting.size() > nestingLevel)
+                {
+                    if (m_nesting.top().first == State::Array)
+                    {
+                        if (tryReadArrayEnd())
+                        {
+                            continue;
+                        }
+                    }
+                    else
+                    {
+                        if (tryReadObjectEnd())
+                        {
+                            continue;
+                        }
+
+                        readObjectMemberName();
+                    }
+                }
+
+                skipToken();
+
+                if (m_nesting.size() > nestingLevel && inputData() == begin)
+                {
+                    throw makeTokenError(m_nesting.top().first == State::Array ? format_t::ArrayEnd : format_t::ObjectEnd);
+                }
+            }
+            while (m_nesting.size() > nestingLevel);
+        }
+
+    private:
+
+        enum struct State : uint8_t
+        {
+            Array,
+            Object
+        };
+
+        using nesting_t = std::pair<State, bool>;
+
+        void skipToken()
         {
             consumeWhitespace();
 
@@ -293,24 +341,11 @@ namespace dots::serialization
                 else if (tools::starts_with(input(), format_t::ArrayBegin))
                 {
                     readArrayBegin();
-
-                    while (!tryReadArrayEnd())
-                    {
-                        skip();
-                    }
-
                     break;
                 }
                 else if (tools::starts_with(input(), format_t::ObjectBegin))
                 {
                     readObjectBegin();
-
-                    while (!tryReadObjectEnd())
-                    {
-                        readObjectMemberName();
-                        skip();
-                    }
-
                     break;
                 }
                 else if (tools::starts_with(input(), format_t::ArrayElementSeparator))
@@ -334,16 +369,6 @@ namespace dots::serialization
             }
         }
 
-    private:
-
-        enum struct State : uint8_t
-        {
-            Array,
-            Object
-        };
-
-        using nesting_t = std::pair<State, bool>;
-
         template <typename T, std::enable_if_t<std::is_same_v<std::decay_t<T>, bool>, int> = 0>
         void read(T& value)
         {
-- 
2.43.0


From 3855eaa0009ac76cab2348d831be541bf4a69625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:38 +0000
Subject: [PATCH 42/55] fix: don't read beyond the text input when reading
 floats

---
 .../dots/serialization/formats/TextReader.h        | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/lib/include/dots/serialization/formats/TextReader.h b/lib/include/dots/serialization/formats/TextReader.h
index cbf7388..6820b62 100644
--- a/lib/include/dots/serialization/formats/TextReader.h
+++ b/lib/include/dots/serialization/formats/TextReader.h
@@ -327,6 +327,8 @@ namespace dots::serialization
 
         using nesting_t = std::pair<State, bool>;
 
+        static constexpr std::string_view FloatSymbols = "+-.0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";
+
         void skipToken()
         {
             consumeWhitespace();
@@ -485,23 +487,27 @@ namespace dots::serialization
             }
             else
             {
+                consumeWhitespace();
+
+                // note: the input is not necessarily null-terminated
+                std::string token{ input().substr(0, input().find_first_not_of(FloatSymbols)) };
                 char* end;
 
                 if constexpr (std::is_same_v<T, float>)
                 {
-                    value = std::strtof(input().data(), &end);
+                    value = std::strtof(token.c_str(), &end);
                 }
                 else/* if constexpr (std::is_same_v<T, double>)*/
                 {
-                    value = std::strtod(input().data(), &end);
+                    value = std::strtod(token.c_str(), &end);
                 }
 
-                if (end == input().data())
+                if (end == token.c_str())
                 {
                     throw makeTokenError("<floating point value>");
                 }
 
-                inputAdvance(static_cast<size_t>(end - input().data()));
+                inputAdvance(static_cast<size_t>(end - token.c_str()));
             }
 
             if constexpr (format_t::FloatFormat == TextFormat::FloatFormat::WithSizeSuffix && std::is_same_v<T, float>)
-- 
2.43.0


From fbe6c9662011a0e2ce344fdc3ba76acdaa66f79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:40 +0000
Subject: [PATCH 43/55] fix: refuse JSON numbers that can't be represented by
 the type of the value

---
 .../serialization/formats/RapidJsonReader.h   | 30 +++++++++----------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/lib/include/dots/serialization/formats/RapidJsonReader.h b/lib/include/dots/serialization/formats/RapidJsonReader.h
index c9af5fe..e454a06 100644
--- a/lib/include/dots/serialization/formats/RapidJsonReader.h
+++ b/lib/include/dots/serialization/formats/RapidJsonReader.h
@@ -1,6 +1,7 @@
 // SPDX-License-Identifier: LGPL-3.0-only
 // Copyright 2015-2022 Thomas Schaetzlein <thomas@pnxs.de>, Christopher Gerlach <gerlachch@gmx.com>
 #pragma once
+#include <limits>
 #include <stack>
 #include <rapidjson/document.h>
 
@@ -254,25 +255,13 @@ namespace dots::serialization
 
             if constexpr (std::is_signed_v<T>)
             {
-                if constexpr (sizeof(T) <= sizeof(int))
-                {
-                    value = static_cast<T>(m_input->GetInt());
-                }
-                else/* if (sizeof(T) == sizeof(int64_t))*/
-                {
-                    value = static_cast<T>(m_input->GetInt64());
-                }
+                assertInRange<T>(m_input->IsInt64(), [this]{ return m_input->GetInt64(); });
+                value = static_cast<T>(m_input->GetInt64());
             }
             else/* if constexpr (std::is_unsigned_v<T>)*/
             {
-                if constexpr (sizeof(T) <= sizeof(unsigned))
-                {
-                    value = static_cast<T>(m_input->GetUint());
-                }
-                else/* if (sizeof(T) == sizeof(uint64_t))*/
-                {
-                    value = static_cast<T>(m_input->GetUint64());
-                }
+                assertInRange<T>(m_input->IsUint64(), [this]{ return m_input->GetUint64(); });
+                value = static_cast<T>(m_input->GetUint64());
             }
         }
 
@@ -303,6 +292,15 @@ namespace dots::serialization
             value = m_input->GetString();
         }
 
+        template <typename T, typename Value>
+        void assertInRange(bool isInteger, Value&& value)
+        {
+            if (!isInteger || value() < std::numeric_limits<T>::min() || value() > std::numeric_limits<T>::max())
+            {
+                throw std::runtime_error{ "encountered JSON number that can't be represented by the integer type" };
+            }
+        }
+
         void finalizeRead()
         {
             if (!m_nesting.empty())
-- 
2.43.0


From 30e0d2286c2f20562e0c837f54d82e8ea7eb99f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:10 +0000
Subject: [PATCH 44/55] fix: read JSON strings that contain null characters
 completely

---
 lib/include/dots/serialization/formats/RapidJsonReader.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/include/dots/serialization/formats/RapidJsonReader.h b/lib/include/dots/serialization/formats/RapidJsonReader.h
index e454a06..7cb4a84 100644
--- a/lib/include/dots/serialization/formats/RapidJsonReader.h
+++ b/lib/include/dots/serialization/formats/RapidJsonReader.h
@@ -283,13 +283,13 @@ namespace dots::serialization
         void read(std::string& value)
         {
             assertType(rapidjson::kStringType);
-            value = m_input->GetString();
+            value.assign(m_input->GetString(), m_input->GetStringLength());
         }
 
         void read(std::string_view& value)
         {
             assertType(rapidjson::kStringType);
-            value = m_input->GetString();
+            value = std::string_view{ m_input->GetString(), m_input->GetStringLength() };
         }
 
         template <typename T, typename Value>
-- 
2.43.0


From e2cc3d40c3d29fa07bfd924f1e21b1bdf3767ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:39 +0000
Subject: [PATCH 45/55] fix: don't access the document of a moved JSON reader

---
 lib/include/dots/serialization/formats/RapidJsonReader.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/include/dots/serialization/formats/RapidJsonReader.h b/lib/include/dots/serialization/formats/RapidJsonReader.h
index 7cb4a84..a86cef3 100644
--- a/lib/include/dots/serialization/formats/RapidJsonReader.h
+++ b/lib/include/dots/serialization/formats/RapidJsonReader.h
@@ -2,6 +2,7 @@
 // Copyright 2015-2022 Thomas Schaetzlein <thomas@pnxs.de>, Christopher Gerlach <gerlachch@gmx.com>
 #pragma once
 #include <limits>
+#include <memory>
 #include <stack>
 #include <rapidjson/document.h>
 
@@ -49,7 +50,7 @@ namespace dots::serialization
 
         void setInput(document_t document)
         {
-            m_document.emplace(std::move(document));
+            m_document = std::make_unique<document_t>(std::move(document));
 
             if (m_document->HasParseError())
             {
@@ -352,7 +353,9 @@ namespace dots::serialization
         }
 
         std::stack<const document_t::ValueType*> m_nesting;
-        std::optional<document_t> m_document = std::nullopt;
+        // note: this is not stored directly, because the input has to remain at
+        // its location when the reader is moved
+        std::unique_ptr<document_t> m_document;
         const document_t::ValueType* m_input = nullptr;
     };
 }
-- 
2.43.0


From b8ecb0e932797d9ddf34b255402f3e1c72986846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:08 +0000
Subject: [PATCH 46/55] fix: don't read beyond the end of JSON arrays and
 objects

---
 .../serialization/formats/RapidJsonReader.h   | 22 +++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/lib/include/dots/serialization/formats/RapidJsonReader.h b/lib/include/dots/serialization/formats/RapidJsonReader.h
index a86cef3..cff9891 100644
--- a/lib/include/dots/serialization/formats/RapidJsonReader.h
+++ b/lib/include/dots/serialization/formats/RapidJsonReader.h
@@ -79,6 +79,7 @@ namespace dots::serialization
 
         void readArrayBegin()
         {
+            assertNotAtEnd();
             assertType(rapidjson::kArrayType);
             document_t::ConstArray array = m_input->GetArray();
             m_nesting.emplace(m_input);
@@ -122,6 +123,7 @@ namespace dots::serialization
 
         void readObjectBegin()
         {
+            assertNotAtEnd();
             assertType(rapidjson::kObjectType);
             document_t::ConstObject obj = m_input->GetObject();
             m_nesting.emplace(m_input);
@@ -169,6 +171,8 @@ namespace dots::serialization
 
         bool tryReadNull()
         {
+            assertNotAtEnd();
+
             if (m_input->IsNull())
             {
                 finalizeRead();
@@ -183,6 +187,8 @@ namespace dots::serialization
         template <typename T, std::enable_if_t<std::is_default_constructible_v<T>, int> = 0>
         T read()
         {
+            assertNotAtEnd();
+
             T value;
             read(value);
             finalizeRead();
@@ -192,6 +198,7 @@ namespace dots::serialization
 
         void skip()
         {
+            assertNotAtEnd();
             finalizeRead();
         }
 
@@ -293,6 +300,21 @@ namespace dots::serialization
             value = std::string_view{ m_input->GetString(), m_input->GetStringLength() };
         }
 
+        void assertNotAtEnd() const
+        {
+            assertHasInputValue();
+
+            if (!m_nesting.empty())
+            {
+                const document_t::ValueType& parent = *m_nesting.top();
+
+                if (m_input == (parent.IsArray() ? parent.End() : &parent.MemberEnd()->name))
+                {
+                    throw std::runtime_error{ "attempt to read beyond the end of a JSON array or object" };
+                }
+            }
+        }
+
         template <typename T, typename Value>
         void assertInRange(bool isInteger, Value&& value)
         {
-- 
2.43.0


From 2b881da79f06a245213cb82fb8edb8e5fa99bb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:45 +0000
Subject: [PATCH 47/55] fix: don't write beyond a digest when its string is too
 long

---
 lib/src/io/auth/Digest.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/src/io/auth/Digest.cpp b/lib/src/io/auth/Digest.cpp
index dbb2f68..d4d62a7 100644
--- a/lib/src/io/auth/Digest.cpp
+++ b/lib/src/io/auth/Digest.cpp
@@ -18,6 +18,12 @@ namespace dots::io
         Digest([&]
         {
             value_t value = {};
+
+            if (stringValue.size() > value.size() * 2)
+            {
+                throw std::invalid_argument{ "digest string exceeds digest size: " + std::to_string(stringValue.size()) };
+            }
+
             boost::algorithm::unhex(stringValue, value.begin());
 
             return value;
-- 
2.43.0


From 9ffe9bd4dbecb858ff46784aba74f6844ca4c036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:45 +0000
Subject: [PATCH 48/55] fix: don't treat string views as null-terminated
 strings

---
 lib/include/dots/type/PosixTime.h        |  6 ++----
 lib/src/io/auth/Nonce.cpp                |  2 +-
 lib/src/io/channels/UdsListener.cpp      |  2 +-
 lib/src/io/channels/WebSocketChannel.cpp |  2 +-
 lib/src/type/Chrono.cpp                  | 13 +++++++------
 lib/src/type/DescriptorMap.cpp           |  4 ++--
 lib/src/type/EnumDescriptor.cpp          |  2 +-
 lib/src/type/Registry.cpp                |  6 +++---
 8 files changed, 18 insertions(+), 19 deletions(-)

diff --git a/lib/include/dots/type/PosixTime.h b/lib/include/dots/type/PosixTime.h
index 81635c8..11c2c00 100644
--- a/lib/include/dots/type/PosixTime.h
+++ b/lib/include/dots/type/PosixTime.h
@@ -13,14 +13,12 @@ namespace dots::type::posix
     {
         ScopedTimeZone(std::string_view timeZone)
         {
-            std::string_view currentTimeZone = ::getenv("TZ");
-
-            if (!currentTimeZone.empty())
+            if (const char* currentTimeZone = ::getenv("TZ"); currentTimeZone != nullptr)
             {
                 m_previousTimeZone = currentTimeZone;
             }
 
-            ::setenv("TZ", timeZone.data(), true);
+            ::setenv("TZ", std::string{ timeZone }.c_str(), true);
             ::tzset();
         }
 
diff --git a/lib/src/io/auth/Nonce.cpp b/lib/src/io/auth/Nonce.cpp
index 99f93c4..7d4091c 100644
--- a/lib/src/io/auth/Nonce.cpp
+++ b/lib/src/io/auth/Nonce.cpp
@@ -23,7 +23,7 @@ namespace dots::io
         Nonce([&]
         {
             value_t value;
-            std::istringstream iss{ stringValue.data() };
+            std::istringstream iss{ std::string{ stringValue } };
             iss >> std::setw(16) >> std::hex >> value;
 
             return value;
diff --git a/lib/src/io/channels/UdsListener.cpp b/lib/src/io/channels/UdsListener.cpp
index 0d56da5..22a09a0 100644
--- a/lib/src/io/channels/UdsListener.cpp
+++ b/lib/src/io/channels/UdsListener.cpp
@@ -16,7 +16,7 @@ namespace dots::io::posix::details
 
     template <typename TChannel>
     GenericUdsListener<TChannel>::GenericUdsListener(asio::io_context& ioContext, std::string_view path, std::optional<int> backlog/* = std::nullopt*/) :
-        m_endpoint{ path.data() },
+        m_endpoint{ std::string{ path } },
         m_acceptor{ ioContext },
         m_socket{ ioContext },
         m_payloadCache{ std::make_shared<payload_cache_t>(0, UdsChannel::buffer_t{}) }
diff --git a/lib/src/io/channels/WebSocketChannel.cpp b/lib/src/io/channels/WebSocketChannel.cpp
index a987215..d12184d 100644
--- a/lib/src/io/channels/WebSocketChannel.cpp
+++ b/lib/src/io/channels/WebSocketChannel.cpp
@@ -33,7 +33,7 @@ namespace dots::io
             }));
 
             boost::beast::websocket::response_type res;
-            m_stream.handshake(res, host.data(), "/");
+            m_stream.handshake(res, std::string{ host }, "/");
 
             if (auto it = res.find(boost::beast::http::field::sec_websocket_protocol); it == res.end())
             {
diff --git a/lib/src/type/Chrono.cpp b/lib/src/type/Chrono.cpp
index fdc8b30..8953e30 100644
--- a/lib/src/type/Chrono.cpp
+++ b/lib/src/type/Chrono.cpp
@@ -86,7 +86,7 @@ namespace dots::type
         // it is pretty slow and should be overhauled at a later point
         std::regex regex{ R"(P([0-9\.]+Y)?([0-9\.]+M)?([0-9\.]+W)?([0-9\.]+D)?(T)([0-9\.]+H)?([0-9\.]+M)?([0-9\.]+S)?)", std::regex_constants::ECMAScript };
         std::smatch match;
-        std::string input = value.data();
+        std::string input{ value };
 
         if (!std::regex_match(input, match, regex) || match.size() <= 1)
         {
@@ -172,7 +172,8 @@ namespace dots::type
             {
                 std::ostringstream oss;
                 oss.exceptions(std::istringstream::failbit | std::istringstream::badbit);
-                const char* fmtData = fmt == ISO8601DateTime ? "%FT%T%Ez" : fmt.data();
+                std::string fmtString{ fmt == ISO8601DateTime ? "%FT%T%Ez" : fmt };
+                const char* fmtData = fmtString.c_str();
                 sys_time_t sysTimePoint{ std::chrono::duration_cast<sys_duration_t>(duration()) };
 
                 if (utc)
@@ -221,7 +222,7 @@ namespace dots::type
     {
         if (fmt.empty())
         {
-            std::istringstream iss{ value.data() };
+            std::istringstream iss{ std::string{ value } };
             iss.exceptions(std::istringstream::failbit | std::istringstream::badbit);
             duration_t::rep count;
             iss >> count;
@@ -236,13 +237,13 @@ namespace dots::type
             }
             else
             {
-                std::istringstream iss{ value.data() };
+                std::istringstream iss{ std::string{ value } };
                 iss.exceptions(std::istringstream::failbit | std::istringstream::badbit);
                 sys_time_t sysTimePoint;
 
                 if (fmt == ISO8601DateTime)
                 {
-                    if (value.back() == 'Z')
+                    if (!value.empty() && value.back() == 'Z')
                     {
                         fmt = "%FT%TZ";
                     }
@@ -252,7 +253,7 @@ namespace dots::type
                     }
                 }
 
-                iss >> date::parse(fmt.data(), sysTimePoint);
+                iss >> date::parse(std::string{ fmt }, sysTimePoint);
                 return TimePointImpl{ sysTimePoint.time_since_epoch() };
             }
         }
diff --git a/lib/src/type/DescriptorMap.cpp b/lib/src/type/DescriptorMap.cpp
index b0c44d5..f8076f0 100644
--- a/lib/src/type/DescriptorMap.cpp
+++ b/lib/src/type/DescriptorMap.cpp
@@ -36,7 +36,7 @@ namespace dots::type
         {
             if (assertNotNull)
             {
-                throw std::logic_error{ std::string{ "no type with name: " } + name.data() };
+                throw std::logic_error{ std::string{ "no type with name: " } + std::string{ name } };
             }
             else
             {
@@ -103,7 +103,7 @@ namespace dots::type
         {
             if (assertContainedType)
             {
-                throw std::logic_error{ std::string{ "no type with name: " } + name.data() };
+                throw std::logic_error{ std::string{ "no type with name: " } + std::string{ name } };
             }
         }
         else
diff --git a/lib/src/type/EnumDescriptor.cpp b/lib/src/type/EnumDescriptor.cpp
index 18f5086..81df0de 100644
--- a/lib/src/type/EnumDescriptor.cpp
+++ b/lib/src/type/EnumDescriptor.cpp
@@ -134,7 +134,7 @@ namespace dots::type
 
         if (it == m_enumerators.end())
         {
-            throw std::logic_error{ "Enum '" + Descriptor<>::name() + "' does not have enumerator with given name: " + name.data() };
+            throw std::logic_error{ "Enum '" + Descriptor<>::name() + "' does not have enumerator with given name: " + std::string{ name } };
         }
 
         return *it;
diff --git a/lib/src/type/Registry.cpp b/lib/src/type/Registry.cpp
index 0a39494..56745f4 100644
--- a/lib/src/type/Registry.cpp
+++ b/lib/src/type/Registry.cpp
@@ -103,7 +103,7 @@ namespace dots::type
         {
             if (assertNotNull)
             {
-                throw std::logic_error{std::string{"no type registered with name1: "} + name.data()};
+                throw std::logic_error{std::string{"no type registered with name1: "} + std::string{ name }};
             }
             else
             {
@@ -127,7 +127,7 @@ namespace dots::type
 
         if (assertNotNull && descriptor == nullptr)
         {
-            throw std::logic_error{ std::string{ "registered type with name '" } + name.data() + "' is not an enum type" };
+            throw std::logic_error{ std::string{ "registered type with name '" } + std::string{ name } + "' is not an enum type" };
         }
 
         return descriptor;
@@ -144,7 +144,7 @@ namespace dots::type
 
         if (assertNotNull && descriptor == nullptr)
         {
-            throw std::logic_error{ std::string{ "registered type with name '" } + name.data() + "' is not a struct type" };
+            throw std::logic_error{ std::string{ "registered type with name '" } + std::string{ name } + "' is not a struct type" };
         }
 
         return descriptor;
-- 
2.43.0


From ffca5615efae051b7dcff15506115f22c40f6d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:00 +0000
Subject: [PATCH 49/55] fix: a failed (de)serialization no longer affects later
 ones

The level of nested visits is restored when a visit is left by an exception,
and what a failed serialization has written is taken back.
---
 lib/include/dots/serialization/Serializer.h   |  9 +++
 .../dots/serialization/TextSerializer.h       | 26 ++++++++
 .../dots/serialization/formats/TextWriter.h   | 22 +++++++
 lib/include/dots/type/TypeVisitor.h           | 65 ++++++++++++-------
 4 files changed, 98 insertions(+), 24 deletions(-)

diff --git a/lib/include/dots/serialization/Serializer.h b/lib/include/dots/serialization/Serializer.h
index bc0ce74..8b11abd 100644
--- a/lib/include/dots/serialization/Serializer.h
+++ b/lib/include/dots/serialization/Serializer.h
@@ -255,6 +255,15 @@ namespace dots::serialization
             }
         }
 
+        template <bool Const>
+        void visitAbortDerived()
+        {
+            if constexpr (Const)
+            {
+                m_writer.output().resize(m_serializeOffset);
+            }
+        }
+
     private:
 
         Derived& derived()
diff --git a/lib/include/dots/serialization/TextSerializer.h b/lib/include/dots/serialization/TextSerializer.h
index b829dbd..e1713a1 100644
--- a/lib/include/dots/serialization/TextSerializer.h
+++ b/lib/include/dots/serialization/TextSerializer.h
@@ -58,6 +58,28 @@ namespace dots::serialization
 
         using serializer_t::visit;
 
+        template <bool Const>
+        void visitBeginDerived()
+        {
+            serializer_t::template visitBeginDerived<Const>();
+
+            if constexpr (Const)
+            {
+                m_nestingState = writer().nestingState();
+            }
+        }
+
+        template <bool Const>
+        void visitAbortDerived()
+        {
+            serializer_t::template visitAbortDerived<Const>();
+
+            if constexpr (Const)
+            {
+                writer().restoreNestingState(m_nestingState);
+            }
+        }
+
         //
         // serialization
         //
@@ -355,5 +377,9 @@ namespace dots::serialization
                 static_assert(!std::is_same_v<T, T>, "type not supported");
             }
         }
+
+    private:
+
+        typename serializer_t::writer_t::nesting_state_t m_nestingState = {};
     };
 }
diff --git a/lib/include/dots/serialization/formats/TextWriter.h b/lib/include/dots/serialization/formats/TextWriter.h
index 72781a6..e737120 100644
--- a/lib/include/dots/serialization/formats/TextWriter.h
+++ b/lib/include/dots/serialization/formats/TextWriter.h
@@ -25,6 +25,28 @@ namespace dots::serialization
             return m_nesting.size();
         }
 
+        using nesting_state_t = std::pair<size_t, bool>;
+
+        nesting_state_t nestingState() const
+        {
+            return { m_nesting.size(), !m_nesting.empty() && m_nesting.top().second };
+        }
+
+        void restoreNestingState(const nesting_state_t& nestingState)
+        {
+            auto [level, first] = nestingState;
+
+            while (m_nesting.size() > level)
+            {
+                m_nesting.pop();
+            }
+
+            if (!m_nesting.empty())
+            {
+                m_nesting.top().second = first;
+            }
+        }
+
         void writeArrayBegin()
         {
             writeString(format_t::ArrayBegin);
diff --git a/lib/include/dots/type/TypeVisitor.h b/lib/include/dots/type/TypeVisitor.h
index 11505d7..4fec0c2 100644
--- a/lib/include/dots/type/TypeVisitor.h
+++ b/lib/include/dots/type/TypeVisitor.h
@@ -37,65 +37,49 @@ namespace dots::type
         template <typename T, std::enable_if_t<std::is_base_of_v<Struct, T>, int> = 0>
         void visit(const T& instance, PropertySet includedProperties)
         {
-            visitBegin<true>();
-            visitStructInternal<true, T>(instance, includedProperties);
-            visitEnd<true>();
+            visitGuarded<true>([&]{ visitStructInternal<true, T>(instance, includedProperties); });
         }
 
         template <typename T, std::enable_if_t<std::is_base_of_v<Struct, T>, int> = 0>
         void visit(T& instance, PropertySet includedProperties)
         {
-            visitBegin<false>();
-            visitStructInternal<false, T>(instance, includedProperties);
-            visitEnd<false>();
+            visitGuarded<false>([&]{ visitStructInternal<false, T>(instance, includedProperties); });
         }
 
         template <typename T, std::enable_if_t<is_property_v<T>, int> = 0>
         void visit(const T& property, bool first = true)
         {
-            visitBegin<true>();
-            visitPropertyInternal<true, T>(property, first);
-            visitEnd<true>();
+            visitGuarded<true>([&]{ visitPropertyInternal<true, T>(property, first); });
         }
 
         template <typename T, std::enable_if_t<is_property_v<T>, int> = 0>
         void visit(T& property, bool first = true)
         {
-            visitBegin<false>();
-            visitPropertyInternal<false, T>(property, first);
-            visitEnd<false>();
+            visitGuarded<false>([&]{ visitPropertyInternal<false, T>(property, first); });
         }
 
         template <typename T>
         void visit(const T& value, const Descriptor<T>& descriptor)
         {
-            visitBegin<true>();
-            visitTypeInternal<true>(value, descriptor);
-            visitEnd<true>();
+            visitGuarded<true>([&]{ visitTypeInternal<true>(value, descriptor); });
         }
 
         template <typename T>
         void visit(T& value, const Descriptor<T>& descriptor)
         {
-            visitBegin<false>();
-            visitTypeInternal<false>(value, descriptor);
-            visitEnd<false>();
+            visitGuarded<false>([&]{ visitTypeInternal<false>(value, descriptor); });
         }
 
         template <typename... Ts, std::enable_if_t<std::conjunction_v<std::negation<is_property<Ts>>...>, int> = 0>
         void visit(const Ts&... values)
         {
-            visitBegin<true>();
-            visitTypeInternal<true, Ts...>(values...);
-            visitEnd<true>();
+            visitGuarded<true>([&]{ visitTypeInternal<true, Ts...>(values...); });
         }
 
         template <typename... Ts, std::enable_if_t<std::conjunction_v<std::negation<std::is_const<Ts>>..., std::negation<is_property<Ts>>...>, int> = 0>
         void visit(Ts&... values)
         {
-            visitBegin<false>();
-            visitTypeInternal<false, Ts...>(values...);
-            visitEnd<false>();
+            visitGuarded<false>([&]{ visitTypeInternal<false, Ts...>(values...); });
         }
 
         template <bool Const>
@@ -110,6 +94,12 @@ namespace dots::type
             /* do nothing */
         }
 
+        template <bool Const>
+        void visitAbortDerived()
+        {
+            /* do nothing */
+        }
+
         template <typename U>
         bool visitStructBeginDerived(U&/* instance*/, PropertySet&/* includedProperties*/)
         {
@@ -243,6 +233,33 @@ namespace dots::type
             }
         }
 
+        // ensures that a visit that was left by an exception does not affect any
+        // subsequent ones
+        template <bool Const, typename Visit>
+        void visitGuarded(Visit&& visit_)
+        {
+            size_t& visitingLevel = Const ? m_constVisitingLevel : m_nonConstVisitingLevel;
+            const size_t initialVisitingLevel = visitingLevel;
+
+            try
+            {
+                visitBegin<Const>();
+                visit_();
+                visitEnd<Const>();
+            }
+            catch (...)
+            {
+                visitingLevel = initialVisitingLevel;
+
+                if (initialVisitingLevel == 0)
+                {
+                    derived().template visitAbortDerived<Const>();
+                }
+
+                throw;
+            }
+        }
+
         template <bool Const, typename T>
         void visitStructInternal(const_t<Const, T>& instance, PropertySet includedProperties)
         {
-- 
2.43.0


From d44d55689513d5e592fe1e9aa02f11aad081cb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:00 +0000
Subject: [PATCH 50/55] fix: discard the nesting of the previous input when a
 text reader gets a new one

---
 lib/include/dots/serialization/formats/TextReader.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/lib/include/dots/serialization/formats/TextReader.h b/lib/include/dots/serialization/formats/TextReader.h
index 6820b62..2b17fa9 100644
--- a/lib/include/dots/serialization/formats/TextReader.h
+++ b/lib/include/dots/serialization/formats/TextReader.h
@@ -22,6 +22,19 @@ namespace dots::serialization
             /* do nothing */
         }
 
+        void setInput(const value_t* inputData, size_t inputDataSize)
+        {
+            Reader<std::string>::setInput(inputData, inputDataSize);
+            m_nesting = {};
+        }
+
+        void setInput(const data_t& input)
+        {
+            setInput(input.data(), input.size());
+        }
+
+        void setInput(data_t&& input) = delete;
+
         size_t nestingLevel() const
         {
             return m_nesting.size();
-- 
2.43.0


From 1ba738600bf69d981dfec192e121d3807356d00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:00 +0000
Subject: [PATCH 51/55] fix: a JSON document that can't be parsed no longer
 invalidates the input of the reader

---
 lib/include/dots/serialization/formats/RapidJsonReader.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lib/include/dots/serialization/formats/RapidJsonReader.h b/lib/include/dots/serialization/formats/RapidJsonReader.h
index cff9891..9d40150 100644
--- a/lib/include/dots/serialization/formats/RapidJsonReader.h
+++ b/lib/include/dots/serialization/formats/RapidJsonReader.h
@@ -50,13 +50,12 @@ namespace dots::serialization
 
         void setInput(document_t document)
         {
-            m_document = std::make_unique<document_t>(std::move(document));
-
-            if (m_document->HasParseError())
+            if (document.HasParseError())
             {
-                throw std::runtime_error("RapidJSON parse error at '" + std::to_string(m_document->GetErrorOffset()) + "' -> " + parseErrorToString(m_document->GetParseError()));
+                throw std::runtime_error("RapidJSON parse error at '" + std::to_string(document.GetErrorOffset()) + "' -> " + parseErrorToString(document.GetParseError()));
             }
 
+            m_document = std::make_unique<document_t>(std::move(document));
             setInput(static_cast<const document_t::ValueType&>(*m_document));
         }
 
-- 
2.43.0


From 3574672f58cdf2d038407b5a68a3c0d048ef9267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:00 +0000
Subject: [PATCH 52/55] fix: restore the nesting of the RapidJSON writer after
 a failed serialization

---
 .../dots/serialization/RapidJsonSerializer.h       | 14 +++++++++++++-
 .../dots/serialization/formats/RapidJsonWriter.h   |  9 +++++++++
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/lib/include/dots/serialization/RapidJsonSerializer.h b/lib/include/dots/serialization/RapidJsonSerializer.h
index 63a14d5..6df43e2 100644
--- a/lib/include/dots/serialization/RapidJsonSerializer.h
+++ b/lib/include/dots/serialization/RapidJsonSerializer.h
@@ -120,7 +120,7 @@ namespace dots::serialization
 
         void setUnderlyingWriter(underlying_writer_t& underlyingWriter)
         {
-            m_writer = writer_t{ &underlyingWriter };
+            m_writer.setWriter(underlyingWriter);
         }
 
         void setInput(const document_t::ValueType& inputValue)
@@ -273,6 +273,7 @@ namespace dots::serialization
             if constexpr (Const)
             {
                 m_writer.assertHasWriter();
+                m_nestingLevel = m_writer.nestingLevel();
             }
             else
             {
@@ -280,6 +281,16 @@ namespace dots::serialization
             }
         }
 
+        template <bool Const>
+        void visitAbortDerived()
+        {
+            if constexpr (Const)
+            {
+                // note: the output itself belongs to the underlying writer
+                m_writer.restoreNestingLevel(m_nestingLevel);
+            }
+        }
+
         //
         // serialization
         //
@@ -555,5 +566,6 @@ namespace dots::serialization
 
         reader_t m_reader;
         writer_t m_writer;
+        size_t m_nestingLevel = 0;
     };
 }
diff --git a/lib/include/dots/serialization/formats/RapidJsonWriter.h b/lib/include/dots/serialization/formats/RapidJsonWriter.h
index 21dbe56..6449a33 100644
--- a/lib/include/dots/serialization/formats/RapidJsonWriter.h
+++ b/lib/include/dots/serialization/formats/RapidJsonWriter.h
@@ -26,6 +26,7 @@ namespace dots::serialization
         void setWriter(underlying_writer_t& writer)
         {
             m_underlyingWriter = &writer;
+            m_nesting = {};
         }
 
         size_t nestingLevel() const
@@ -33,6 +34,14 @@ namespace dots::serialization
             return m_nesting.size();
         }
 
+        void restoreNestingLevel(size_t nestingLevel)
+        {
+            while (m_nesting.size() > nestingLevel)
+            {
+                m_nesting.pop();
+            }
+        }
+
         void writeArrayBegin()
         {
             initiateWrite();
-- 
2.43.0


From 8d0d2dcb58f17dce9346014e4e127668233d9774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:34 +0000
Subject: [PATCH 53/55] fix: write IPv6 addresses into URIs in brackets and
 forget the authority of a previous URI

---
 lib/src/tools/Uri.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/tools/Uri.cpp b/lib/src/tools/Uri.cpp
index 0ce875c..43ef0a9 100644
--- a/lib/src/tools/Uri.cpp
+++ b/lib/src/tools/Uri.cpp
@@ -13,7 +13,7 @@ namespace dots::tools
     }
 
     Uri::Uri(const std::string& scheme, const std::string& host, const std::string& port) :
-        Uri(scheme + "://" + host + ":" + port)
+        Uri(scheme + "://" + (host.find(':') != std::string::npos && !starts_with(host, "[") ? "[" + host + "]" : host) + ":" + port)
     {
         /* do nothing */
     }
@@ -277,6 +277,7 @@ namespace dots::tools
     {
         try
         {
+            m_authority = {};
             m_userName = {};
             m_userPassword = {};
             m_hostDelimited = {};
-- 
2.43.0


From 85653c70017dff7d5fa01239bca433a2d4c2769c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:02:38 +0000
Subject: [PATCH 54/55] fix: a removed container was still found by the name of
 its type, and a descriptor map claimed to contain what it does not

---
 lib/src/ContainerPool.cpp      | 5 +++++
 lib/src/type/DescriptorMap.cpp | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/src/ContainerPool.cpp b/lib/src/ContainerPool.cpp
index 0cfa3c0..802b8e3 100644
--- a/lib/src/ContainerPool.cpp
+++ b/lib/src/ContainerPool.cpp
@@ -127,6 +127,11 @@ namespace dots
             throw std::runtime_error{ "container pool does not contain an element for the given type: " + descriptor.name() };
         }
 
+        if (auto it = m_nameCache.find(descriptor.name()); it != m_nameCache.end() && it->second == &node.mapped())
+        {
+            m_nameCache.erase(it);
+        }
+
         return node;
     }
 
diff --git a/lib/src/type/DescriptorMap.cpp b/lib/src/type/DescriptorMap.cpp
index f8076f0..c50c890 100644
--- a/lib/src/type/DescriptorMap.cpp
+++ b/lib/src/type/DescriptorMap.cpp
@@ -71,7 +71,7 @@ namespace dots::type
 
     bool DescriptorMap::contains(std::string_view name) const
     {
-        return find(name) == nullptr;
+        return find(name) != nullptr;
     }
 
     std::pair<Descriptor<>*, bool> DescriptorMap::tryEmplace(Descriptor<>& descriptor)
-- 
2.43.0


From 5a4bb10231f71cb463c689290dee32b412ce2f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:05:45 +0000
Subject: [PATCH 55/55] fix: a copied container pool found the containers of
 the original by their names

---
 lib/include/dots/ContainerPool.h |  8 ++++++++
 lib/src/ContainerPool.cpp        | 19 +++++++++++++++++++
 2 files changed, 27 insertions(+)

diff --git a/lib/include/dots/ContainerPool.h b/lib/include/dots/ContainerPool.h
index a91634e..18f87a0 100644
--- a/lib/include/dots/ContainerPool.h
+++ b/lib/include/dots/ContainerPool.h
@@ -33,6 +33,14 @@ namespace dots
         using value_t = pool_t::value_type;
         using node_t = pool_t::node_type;
 
+        ContainerPool() = default;
+        ContainerPool(const ContainerPool& other);
+        ContainerPool(ContainerPool&& other) = default;
+        ~ContainerPool() = default;
+
+        ContainerPool& operator = (const ContainerPool& rhs);
+        ContainerPool& operator = (ContainerPool&& rhs) = default;
+
         /*!
          * @brief Get a constant iterator to the beginning of the
          * ContainerPool.
diff --git a/lib/src/ContainerPool.cpp b/lib/src/ContainerPool.cpp
index 802b8e3..526f70d 100644
--- a/lib/src/ContainerPool.cpp
+++ b/lib/src/ContainerPool.cpp
@@ -7,6 +7,25 @@
 
 namespace dots
 {
+    ContainerPool::ContainerPool(const ContainerPool& other) :
+        m_pool{ other.m_pool }
+    {
+        for (auto& [descriptorPtr, container] : m_pool)
+        {
+            m_nameCache.emplace(descriptorPtr->name(), &container);
+        }
+    }
+
+    ContainerPool& ContainerPool::operator = (const ContainerPool& rhs)
+    {
+        if (this != &rhs)
+        {
+            *this = ContainerPool{ rhs };
+        }
+
+        return *this;
+    }
+
     auto ContainerPool::begin() const -> const_iterator_t
     {
         return m_pool.begin();
-- 
2.43.0

