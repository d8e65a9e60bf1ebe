From 7877d326a9c65284deb2eeb9deda43aed1caeb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:23 +0000
Subject: [PATCH 01/71] fix: serialise a NULL string field as an empty string

A NULL string produced no bytes at all, so every reader of the stream took
the next field for the string and lost the rest of the stream.
---
 lib/include/hawktracer/event_macros.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/include/hawktracer/event_macros.h b/lib/include/hawktracer/event_macros.h
index 4c3618b..3ec2ec8 100644
--- a/lib/include/hawktracer/event_macros.h
+++ b/lib/include/hawktracer/event_macros.h
@@ -16,7 +16,7 @@
 #define HT_EVENT_RUNTIME_SIZEOF_INTEGER(VAR_NAME, FIELD, C_TYPE) sizeof(VAR_NAME->FIELD)
 #define HT_EVENT_RUNTIME_SIZEOF_POINTER(VAR_NAME, FIELD, C_TYPE) sizeof(VAR_NAME->FIELD)
 #define HT_EVENT_RUNTIME_SIZEOF_DOUBLE(VAR_NAME, FIELD, C_TYPE) sizeof(VAR_NAME->FIELD)
-#define HT_EVENT_RUNTIME_SIZEOF_STRING(VAR_NAME, FIELD, C_TYPE) (VAR_NAME->FIELD ? strlen(VAR_NAME->FIELD) + 1 : 0)
+#define HT_EVENT_RUNTIME_SIZEOF_STRING(VAR_NAME, FIELD, C_TYPE) ((VAR_NAME->FIELD ? strlen(VAR_NAME->FIELD) : 0) + 1)
 #define HT_EVENT_RUNTIME_SIZEOF__(VAR_NAME, DATA_TYPE, C_TYPE, FIELD, ...) +HT_EVENT_RUNTIME_SIZEOF_##DATA_TYPE(VAR_NAME, FIELD, C_TYPE)
 #define HT_EVENT_RUNTIME_SIZEOF_(...) MKCREFLECT_EXPAND_(HT_EVENT_RUNTIME_SIZEOF__(__VA_ARGS__, 0))
 #define HT_EVENT_RUNTIME_SIZEOF(X, USER_DATA) HT_EVENT_RUNTIME_SIZEOF_(USER_DATA, MKCREFLECT_EXPAND_VA_ X)
@@ -28,8 +28,9 @@
 #define HT_EVENT_RUNTIME_SERIALIZE_POINTER(C_TYPE, FIELD) HT_EVENT_RUNTIME_SERIALIZE_BASE_TYPE_(C_TYPE, FIELD)
 #define HT_EVENT_RUNTIME_SERIALIZE_DOUBLE(C_TYPE, FIELD) HT_EVENT_RUNTIME_SERIALIZE_BASE_TYPE_(C_TYPE, FIELD)
 #define HT_EVENT_RUNTIME_SERIALIZE_STRING(C_TYPE, FIELD) do {\
-    size_t len = (VAR_NAME->FIELD) ? strlen(VAR_NAME->FIELD) + 1 : 0; \
-    memcpy(buffer + offset, VAR_NAME->FIELD, len); \
+    const char* str = (VAR_NAME->FIELD) ? (VAR_NAME->FIELD) : ""; \
+    size_t len = strlen(str) + 1; \
+    memcpy(buffer + offset, str, len); \
     offset += len; \
 } while (0);
 #define HT_EVENT_RUNTIME_SERIALIZE__(DATA_TYPE, C_TYPE, FIELD, ...) HT_EVENT_RUNTIME_SERIALIZE_##DATA_TYPE(C_TYPE, FIELD)
-- 
2.43.0


From 173515379d237aeabd7de35d1d3e631fbc4367e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:01 +0000
Subject: [PATCH 02/71] fix: do not overflow the listener buffer with an event
 larger than it

An unserialised event whose serialised form exceeds the buffer was written
past the end of the heap block; pass it to the listener directly instead.
---
 lib/listener_buffer.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/lib/listener_buffer.c b/lib/listener_buffer.c
index 4249e58..6417cee 100644
--- a/lib/listener_buffer.c
+++ b/lib/listener_buffer.c
@@ -80,13 +80,28 @@ ht_listener_buffer_process_unserialized_events(HT_ListenerBuffer* buffer,
     for (i = 0; i < size;)
     {
         HT_Event* event = HT_EVENT(events + i);
+        size_t event_size = HT_EVENT_GET_KLASS(event)->get_size(event);
 
-        if (HT_EVENT_GET_KLASS(event)->get_size(event) + buffer->usage > buffer->max_size)
+        if (event_size + buffer->usage > buffer->max_size)
         {
             ht_listener_buffer_flush(buffer, flush_callback, listener);
         }
 
-        buffer->usage += HT_EVENT_GET_KLASS(event)->serialize(event, buffer->data + buffer->usage);
+        if (event_size > buffer->max_size)
+        {
+            /* the event never fits into the buffer, so pass it directly to the listener */
+            HT_Byte* event_data = (HT_Byte*)ht_alloc(event_size);
+            if (event_data != NULL)
+            {
+                flush_callback(listener, event_data, HT_EVENT_GET_KLASS(event)->serialize(event, event_data));
+                ht_free(event_data);
+            }
+        }
+        else
+        {
+            buffer->usage += HT_EVENT_GET_KLASS(event)->serialize(event, buffer->data + buffer->usage);
+        }
+
         i += HT_EVENT_GET_KLASS(event)->type_info->size;
     }
 }
-- 
2.43.0


From 85742f212dd9ce5ab1779b75ced2eb7eec00115b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:32 +0000
Subject: [PATCH 03/71] fix: find or create a named listener container
 atomically

---
 lib/include/internal/registry.h |  4 ++
 lib/registry.c                  | 79 ++++++++++++++++++++++++---------
 lib/timeline_listener.c         | 14 +-----
 3 files changed, 64 insertions(+), 33 deletions(-)

diff --git a/lib/include/internal/registry.h b/lib/include/internal/registry.h
index 355caa1..6aa31bc 100644
--- a/lib/include/internal/registry.h
+++ b/lib/include/internal/registry.h
@@ -15,6 +15,10 @@ HT_API HT_TimelineListenerContainer* ht_registry_find_listener_container(const c
 
 HT_API HT_ErrorCode ht_registry_register_listener_container(const char* name, HT_TimelineListenerContainer* container);
 
+/* Returns a new reference to the container registered for the name (which is created if needed),
+ * or NULL if there's not enough memory. */
+HT_TimelineListenerContainer* ht_registry_find_or_create_listener_container(const char* name);
+
 HT_DECLS_END
 
 #endif /* HAWKTRACER_INTERNAL_REGISTRY_H */
diff --git a/lib/registry.c b/lib/registry.c
index 1ba6a2e..f28ea0f 100644
--- a/lib/registry.c
+++ b/lib/registry.c
@@ -140,51 +140,90 @@ ht_registry_deinit(void)
     ht_bag_void_ptr_deinit(&event_klass_register);
 }
 
-HT_TimelineListenerContainer*
-ht_registry_find_listener_container(const char* name)
+/* listeners_register_mutex must be locked by the caller */
+static HT_TimelineListenerContainer*
+_ht_registry_find_listener_container(uint32_t id)
 {
     size_t i;
-    uint32_t id = djb2_hash(name);
 
-    ht_mutex_lock(listeners_register_mutex);
     for (i = 0; i < listeners_register.size; i++)
     {
         if (ht_timeline_listener_container_get_id((HT_TimelineListenerContainer*)listeners_register.data[i]) == id)
         {
-            HT_TimelineListenerContainer* container = (HT_TimelineListenerContainer*)listeners_register.data[i];
-            ht_mutex_unlock(listeners_register_mutex);
-            return container;
+            return (HT_TimelineListenerContainer*)listeners_register.data[i];
         }
     }
-    ht_mutex_unlock(listeners_register_mutex);
 
     return NULL;
 }
 
-HT_ErrorCode
-ht_registry_register_listener_container(const char* name, HT_TimelineListenerContainer* container)
+/* listeners_register_mutex must be locked by the caller */
+static HT_ErrorCode
+_ht_registry_register_listener_container(uint32_t id, HT_TimelineListenerContainer* container)
 {
-    HT_ErrorCode error_code;
+    HT_ErrorCode error_code = ht_bag_void_ptr_add(&listeners_register, container);
 
-    if (ht_registry_find_listener_container(name) != NULL)
+    if (error_code == HT_ERR_OK)
     {
-        return HT_ERR_LISTENER_CONTAINER_ALREADY_REGISTERED;
+        ht_timeline_listener_container_set_id(container, id);
+        ht_timeline_listener_container_ref(container);
     }
 
+    return error_code;
+}
+
+HT_TimelineListenerContainer*
+ht_registry_find_listener_container(const char* name)
+{
+    HT_TimelineListenerContainer* container;
+
     ht_mutex_lock(listeners_register_mutex);
-    ht_timeline_listener_container_set_id(container, djb2_hash(name));
-    ht_timeline_listener_container_ref(container);
+    container = _ht_registry_find_listener_container(djb2_hash(name));
+    ht_mutex_unlock(listeners_register_mutex);
 
-    error_code = ht_bag_void_ptr_add(&listeners_register, container);
-    if (error_code != HT_ERR_OK)
+    return container;
+}
+
+HT_ErrorCode
+ht_registry_register_listener_container(const char* name, HT_TimelineListenerContainer* container)
+{
+    HT_ErrorCode error_code = HT_ERR_LISTENER_CONTAINER_ALREADY_REGISTERED;
+    uint32_t id = djb2_hash(name);
+
+    ht_mutex_lock(listeners_register_mutex);
+    if (_ht_registry_find_listener_container(id) == NULL)
     {
-        ht_mutex_unlock(listeners_register_mutex);
-        return error_code;
+        error_code = _ht_registry_register_listener_container(id, container);
     }
+    ht_mutex_unlock(listeners_register_mutex);
+
+    return error_code;
+}
+
+HT_TimelineListenerContainer*
+ht_registry_find_or_create_listener_container(const char* name)
+{
+    HT_TimelineListenerContainer* container;
+    uint32_t id = djb2_hash(name);
 
+    ht_mutex_lock(listeners_register_mutex);
+    container = _ht_registry_find_listener_container(id);
+    if (container != NULL)
+    {
+        ht_timeline_listener_container_ref(container);
+    }
+    else
+    {
+        container = ht_timeline_listener_container_create();
+        if (container != NULL && _ht_registry_register_listener_container(id, container) != HT_ERR_OK)
+        {
+            ht_timeline_listener_container_unref(container);
+            container = NULL;
+        }
+    }
     ht_mutex_unlock(listeners_register_mutex);
 
-    return HT_ERR_OK;
+    return container;
 }
 
 #define REGISTRY_LISETNER_BUFF_SIZE 4096
diff --git a/lib/timeline_listener.c b/lib/timeline_listener.c
index 1bdd207..fc2f8da 100644
--- a/lib/timeline_listener.c
+++ b/lib/timeline_listener.c
@@ -180,19 +180,7 @@ ht_find_or_create_listener(const char* name)
     }
     else
     {
-        container = ht_registry_find_listener_container(name);
-        if (container == NULL)
-        {
-            container = ht_timeline_listener_container_create();
-            if (container != NULL)
-            {
-                ht_registry_register_listener_container(name, container);
-            }
-        }
-        else
-        {
-            container->refcount++;
-        }
+        container = ht_registry_find_or_create_listener_container(name);
     }
 
     return container;
-- 
2.43.0


From 4a670f5a4db0d7626f782e466a1769e681d7ed2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:04 +0000
Subject: [PATCH 04/71] fix: resize bags by the size of their element type

---
 lib/include/internal/bag.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/include/internal/bag.h b/lib/include/internal/bag.h
index e53d5fe..8b5bde3 100644
--- a/lib/include/internal/bag.h
+++ b/lib/include/internal/bag.h
@@ -29,7 +29,7 @@ HT_DECLS_BEGIN
     static HT_INLINE HT_Boolean \
     ht_bag##METHOD_SUFFIX##_resize_(HT_Bag##TYPE_SUFFIX* bag, size_t new_capacity) \
     { \
-        TYPE* ptr = (TYPE*)ht_realloc(bag->data, new_capacity * sizeof(void*)); \
+        TYPE* ptr = (TYPE*)ht_realloc(bag->data, new_capacity * sizeof(TYPE)); \
         \
         if (ptr == NULL) \
         { \
-- 
2.43.0


From 19c1bb52d9ecf08ed126e1220c454a09e7f5e87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:18 +0000
Subject: [PATCH 05/71] fix: protect the list of listeners while notifying them

---
 lib/timeline_listener.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/lib/timeline_listener.c b/lib/timeline_listener.c
index fc2f8da..79cc5f3 100644
--- a/lib/timeline_listener.c
+++ b/lib/timeline_listener.c
@@ -62,10 +62,23 @@ void
 ht_timeline_listener_container_notify_listeners(HT_TimelineListenerContainer* container, TEventPtr events, size_t size, HT_Boolean serialize_events)
 {
     size_t i;
-    for (i = 0; i < container->entries.size; i++)
+    for (i = 0; ; i++)
     {
-        HT_TimelineListenerEntry* entry = &container->entries.data[i];
-        entry->callback(events, size, serialize_events, entry->user_data);
+        /* Listeners might be registered by other threads while we're iterating, so
+         * the entry must be copied. The callback can't be called with the mutex locked,
+         * because it might use the container as well. */
+        HT_TimelineListenerEntry entry;
+
+        ht_mutex_lock(container->mutex);
+        if (i >= container->entries.size)
+        {
+            ht_mutex_unlock(container->mutex);
+            break;
+        }
+        entry = container->entries.data[i];
+        ht_mutex_unlock(container->mutex);
+
+        entry.callback(events, size, serialize_events, entry.user_data);
     }
 }
 
-- 
2.43.0


From f3db2ae8b20f0799f26f82aaae25c4aa6c563297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:43 +0000
Subject: [PATCH 06/71] fix: initialise the client connected callback of the
 TCP listener

---
 lib/listeners/tcp_listener.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/listeners/tcp_listener.c b/lib/listeners/tcp_listener.c
index a6ce6a3..e2c7108 100644
--- a/lib/listeners/tcp_listener.c
+++ b/lib/listeners/tcp_listener.c
@@ -81,6 +81,8 @@ ht_tcp_listener_init(HT_TCPListener* listener, int port, size_t buffer_size)
 
     listener->_last_client_sock_fd = 0;
     listener->_was_flushed = HT_FALSE;
+    listener->_client_connected_callback = NULL;
+    listener->_client_connected_user_data = NULL;
 
     // TODO handle if return null
     listener->_push_action_mutex = ht_mutex_create();
-- 
2.43.0


From 322404ec310bbcf99899c50ada84c4850ee79efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:04 +0000
Subject: [PATCH 07/71] fix: do not raise SIGPIPE when a TCP client is gone

---
 lib/tcp_server.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/tcp_server.cpp b/lib/tcp_server.cpp
index 742d457..7e9ab3c 100644
--- a/lib/tcp_server.cpp
+++ b/lib/tcp_server.cpp
@@ -109,6 +109,10 @@ ht_thread_destroy(HT_Thread* th)
 
 #include <string.h>
 
+#ifndef MSG_NOSIGNAL
+#  define MSG_NOSIGNAL 0
+#endif
+
 static void *_ht_tcp_server_run(void *user_data);
 
 struct _HT_TCPServer
@@ -268,7 +272,7 @@ ht_tcp_server_write_to_socket(HT_TCPServer* server, int sock_fd, char* buffer, s
 
     while (sent < size)
     {
-        int n = send(sock_fd, buffer + sent, size - sent, 0);
+        int n = send(sock_fd, buffer + sent, size - sent, MSG_NOSIGNAL);
 
         if (n <= 0)
         {
-- 
2.43.0


From 09f88c49d246ba2b50390b6e9325e2e5d3a8ec0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:11 +0000
Subject: [PATCH 08/71] fix: make stopping the TCP listener idempotent and safe
 while events are pushed

---
 lib/listeners/tcp_listener.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/listeners/tcp_listener.c b/lib/listeners/tcp_listener.c
index e2c7108..25e0582 100644
--- a/lib/listeners/tcp_listener.c
+++ b/lib/listeners/tcp_listener.c
@@ -208,22 +208,26 @@ ht_tcp_listener_callback(TEventPtr events, size_t size, HT_Boolean serialized, v
 void
 ht_tcp_listener_stop(HT_TCPListener* listener)
 {
+    HT_TCPServer* server;
+
     ht_mutex_lock(listener->_push_action_mutex);
 
-    if (!_ht_tcp_listener_is_stopped(listener))
+    if (_ht_tcp_listener_is_stopped(listener))
     {
         ht_mutex_unlock(listener->_push_action_mutex);
+        return;
     }
 
     ht_tcp_listener_flush(listener);
-    ht_tcp_server_stop(listener->_tcp_server);
     ht_listener_buffer_deinit(&listener->_buffer);
-    ht_tcp_server_destroy(listener->_tcp_server);
+    server = listener->_tcp_server;
     listener->_tcp_server = NULL;
 
     ht_mutex_unlock(listener->_push_action_mutex);
 
-    ht_mutex_unlock(listener->_push_action_mutex);
+    /* The accept thread needs the mutex for sending metadata to new clients,
+     * so the server has to be stopped when the mutex is not locked. */
+    ht_tcp_server_destroy(server);
 }
 
 #endif /* HT_ENABLE_TCP_LISTENER */
-- 
2.43.0


From a12253eb15dd6bacf579961301df923302768ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:49 +0000
Subject: [PATCH 09/71] fix: close the sockets of the TCP server

---
 lib/tcp_server.cpp | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/lib/tcp_server.cpp b/lib/tcp_server.cpp
index 7e9ab3c..70580a6 100644
--- a/lib/tcp_server.cpp
+++ b/lib/tcp_server.cpp
@@ -115,6 +115,16 @@ ht_thread_destroy(HT_Thread* th)
 
 static void *_ht_tcp_server_run(void *user_data);
 
+static void
+ht_tcp_server_close_socket(int sock_fd)
+{
+#ifdef _WIN32
+    closesocket(sock_fd);
+#else
+    close(sock_fd);
+#endif
+}
+
 struct _HT_TCPServer
 {
     HT_Thread* accept_client_thread;
@@ -213,15 +223,10 @@ ht_tcp_server_stop(HT_TCPServer* server)
         return;
     }
 
-    ht_mutex_lock(server->client_mutex);
-    ht_bag_int_clear(&server->client_sock_fd);
-    ht_mutex_unlock(server->client_mutex);
-
     int prev_sock_fd = server->server_sock_fd;
     server->server_sock_fd = -1;
 #ifdef _WIN32
-    closesocket(prev_sock_fd);
-    WSACleanup();
+    ht_tcp_server_close_socket(prev_sock_fd);
 #else
     shutdown(prev_sock_fd, 2);
 #endif
@@ -232,6 +237,20 @@ ht_tcp_server_stop(HT_TCPServer* server)
         ht_thread_destroy(server->accept_client_thread);
         server->accept_client_thread = NULL;
     }
+
+    ht_mutex_lock(server->client_mutex);
+    for (size_t i = 0; i < ht_bag_size(server->client_sock_fd); i++)
+    {
+        ht_tcp_server_close_socket(ht_bag_nth(server->client_sock_fd, i));
+    }
+    ht_bag_int_clear(&server->client_sock_fd);
+    ht_mutex_unlock(server->client_mutex);
+
+#ifdef _WIN32
+    WSACleanup();
+#else
+    ht_tcp_server_close_socket(prev_sock_fd);
+#endif
 }
 
 HT_Boolean
@@ -251,6 +270,7 @@ ht_tcp_server_write(HT_TCPServer* server, char* buffer, size_t size)
     {
         if (!ht_tcp_server_write_to_socket(server, ht_bag_nth(server->client_sock_fd, i), buffer, size))
         {
+            ht_tcp_server_close_socket(ht_bag_nth(server->client_sock_fd, i));
             ht_bag_int_remove_nth(&server->client_sock_fd, i);
             i--;
         }
-- 
2.43.0


From 84bde09d61229785ba4972a51a12c35e9002e5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:13 +0000
Subject: [PATCH 10/71] fix: do not drop a TCP client when sending data is
 interrupted by a signal

---
 lib/tcp_server.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/tcp_server.cpp b/lib/tcp_server.cpp
index 70580a6..896b2a5 100644
--- a/lib/tcp_server.cpp
+++ b/lib/tcp_server.cpp
@@ -107,6 +107,7 @@ ht_thread_destroy(HT_Thread* th)
 #include <unistd.h>
 #endif
 
+#include <errno.h>
 #include <string.h>
 
 #ifndef MSG_NOSIGNAL
@@ -294,6 +295,11 @@ ht_tcp_server_write_to_socket(HT_TCPServer* server, int sock_fd, char* buffer, s
     {
         int n = send(sock_fd, buffer + sent, size - sent, MSG_NOSIGNAL);
 
+        if (n < 0 && errno == EINTR)
+        {
+            continue;
+        }
+
         if (n <= 0)
         {
             return HT_FALSE;
-- 
2.43.0


From fe33f67882bec667b1f4528985b8942841aa06c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:20 +0000
Subject: [PATCH 11/71] fix: never start sending events to a new TCP client in
 the middle of an event

---
 lib/include/internal/listeners/tcp_server.h |  9 ++++++++-
 lib/listeners/tcp_listener.c                |  7 ++++++-
 lib/tcp_server.cpp                          | 16 ++++++++++++----
 3 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/lib/include/internal/listeners/tcp_server.h b/lib/include/internal/listeners/tcp_server.h
index e798f6a..11a6760 100644
--- a/lib/include/internal/listeners/tcp_server.h
+++ b/lib/include/internal/listeners/tcp_server.h
@@ -6,12 +6,19 @@
 HT_DECLS_BEGIN
 
 typedef struct _HT_TCPServer HT_TCPServer;
-typedef void(*OnClientConnected)(int, void*);
+
+/**
+ * Called when a new client is connected to the server. The callback must call
+ * ht_tcp_server_add_client(), which makes the client receive all the data written to the server.
+ */
+typedef void(*OnClientConnected)(HT_TCPServer*, int, void*);
 
 HT_TCPServer* ht_tcp_server_create(void);
 
 void ht_tcp_server_destroy(HT_TCPServer* server);
 
+void ht_tcp_server_add_client(HT_TCPServer* server, int sock_fd);
+
 void ht_tcp_server_write(HT_TCPServer* server, char* buffer, size_t size);
 
 HT_Boolean ht_tcp_server_start(HT_TCPServer* server, int port, OnClientConnected client_connected_cb, void* user_data);
diff --git a/lib/listeners/tcp_listener.c b/lib/listeners/tcp_listener.c
index 25e0582..a6b116f 100644
--- a/lib/listeners/tcp_listener.c
+++ b/lib/listeners/tcp_listener.c
@@ -58,7 +58,7 @@ ht_tcp_listener_metadata_pusher(TEventPtr e, size_t c, HT_Boolean serialized, vo
 }
 
 static void
-ht_tcp_listener_client_connected(int sock_fd, void* user_data)
+ht_tcp_listener_client_connected(HT_TCPServer* server, int sock_fd, void* user_data)
 {
     HT_TCPListener* listener = (HT_TCPListener*)user_data;
     listener->_last_client_sock_fd = sock_fd;
@@ -68,6 +68,11 @@ ht_tcp_listener_client_connected(int sock_fd, void* user_data)
     {
         listener->_client_connected_callback(sock_fd, listener->_client_connected_user_data);
     }
+
+    /* The client can't be added in the middle of sending events, as it would receive only a part of an event. */
+    ht_mutex_lock(listener->_push_action_mutex);
+    ht_tcp_server_add_client(server, sock_fd);
+    ht_mutex_unlock(listener->_push_action_mutex);
 }
 
 static HT_ErrorCode
diff --git a/lib/tcp_server.cpp b/lib/tcp_server.cpp
index 896b2a5..adcaedc 100644
--- a/lib/tcp_server.cpp
+++ b/lib/tcp_server.cpp
@@ -280,6 +280,17 @@ ht_tcp_server_write(HT_TCPServer* server, char* buffer, size_t size)
     ht_mutex_unlock(server->client_mutex);
 }
 
+void
+ht_tcp_server_add_client(HT_TCPServer* server, int sock_fd)
+{
+    ht_mutex_lock(server->client_mutex);
+    if (ht_bag_int_add(&server->client_sock_fd, sock_fd) != HT_ERR_OK)
+    {
+        ht_tcp_server_close_socket(sock_fd);
+    }
+    ht_mutex_unlock(server->client_mutex);
+}
+
 HT_Boolean
 ht_tcp_server_write_to_socket(HT_TCPServer* server, int sock_fd, char* buffer, size_t size)
 {
@@ -328,10 +339,7 @@ _ht_tcp_server_run(void* user_data)
 
         if (client_fd >= 0)
         {
-            server->client_connected_cb(client_fd, server->client_connected_ud);
-            ht_mutex_lock(server->client_mutex);
-            ht_bag_int_add(&server->client_sock_fd, client_fd);
-            ht_mutex_unlock(server->client_mutex);
+            server->client_connected_cb(server, client_fd, server->client_connected_ud);
         }
     }
     return NULL;
-- 
2.43.0


From de069e31688dfbfb4576bd27878b0fab68cf6e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:22 +0000
Subject: [PATCH 12/71] fix: report failed writes of the file listener and
 leave no gap in the file

---
 lib/listeners/file_dump_listener.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/listeners/file_dump_listener.c b/lib/listeners/file_dump_listener.c
index 9a34dde..685e9f3 100644
--- a/lib/listeners/file_dump_listener.c
+++ b/lib/listeners/file_dump_listener.c
@@ -24,7 +24,12 @@ _ht_file_dump_listener_flush(void* listener, HT_Byte* data, size_t size)
 {
     HT_FileDumpListener* fd_listener = (HT_FileDumpListener*) listener;
 
-    fwrite(data, sizeof(HT_Byte), size, fd_listener->p_file);
+    /* Once a write has failed, the rest of the stream can't be stored without leaving
+     * a gap in the file, which would make all the following data unreadable. */
+    if (ferror(fd_listener->p_file) == 0)
+    {
+        fwrite(data, sizeof(HT_Byte), size, fd_listener->p_file);
+    }
 }
 
 HT_FileDumpListener*
@@ -111,7 +116,7 @@ ht_file_dump_listener_flush(HT_FileDumpListener* listener, HT_Boolean flush_stre
 
     if (flush_stream == HT_TRUE)
     {
-        if (fflush(listener->p_file) != 0)
+        if (fflush(listener->p_file) != 0 || ferror(listener->p_file) != 0)
         {
             ret = HT_ERR_UNKNOWN;
         }
-- 
2.43.0


From ac4cacfc6efde9e306e453c0bd542e2825343954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:58 +0000
Subject: [PATCH 13/71] fix: always wake up all threads waiting for the
 protocol reader to complete

---
 parser/include/hawktracer/parser/protocol_reader.hpp | 2 +-
 parser/protocol_reader.cpp                           | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/parser/include/hawktracer/parser/protocol_reader.hpp b/parser/include/hawktracer/parser/protocol_reader.hpp
index 819b0ec..c69c87a 100644
--- a/parser/include/hawktracer/parser/protocol_reader.hpp
+++ b/parser/include/hawktracer/parser/protocol_reader.hpp
@@ -45,7 +45,7 @@ private:
     std::vector<OnNewEventCallback> _on_new_event_callbacks;
     std::unique_ptr<Stream> _stream;
     std::thread _thread;
-    std::atomic_bool _is_running;
+    std::atomic_bool _is_running{false};
     std::condition_variable _cv;
     std::mutex _mtx_cv;
     bool _flat_events;
diff --git a/parser/protocol_reader.cpp b/parser/protocol_reader.cpp
index 4c4a7cd..0fe1cbe 100644
--- a/parser/protocol_reader.cpp
+++ b/parser/protocol_reader.cpp
@@ -105,8 +105,11 @@ void ProtocolReader::_read_events()
         _call_callbacks(event);
     }
 
-    _is_running = false;
-    _cv.notify_one();
+    {
+        std::lock_guard<std::mutex> l(_mtx_cv);
+        _is_running = false;
+    }
+    _cv.notify_all();
 }
 
 void ProtocolReader::_read_event(bool& is_error, Event& event, Event* base_event)
-- 
2.43.0


From 5b5f9b51f988cab37bd40c4ecbefdb3cb0270224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:58 +0000
Subject: [PATCH 14/71] fix: stop the protocol reader when its continuous
 stream is idle

---
 parser/protocol_reader.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/protocol_reader.cpp b/parser/protocol_reader.cpp
index 0fe1cbe..aed49d0 100644
--- a/parser/protocol_reader.cpp
+++ b/parser/protocol_reader.cpp
@@ -47,6 +47,11 @@ bool ProtocolReader::start()
 void ProtocolReader::stop()
 {
     _is_running = false;
+    if (_stream->is_continuous())
+    {
+        // The reader might be waiting for data that never arrives
+        _stream->stop();
+    }
     if (_thread.joinable())
     {
         _thread.join();
-- 
2.43.0


From 3a9a19d0ff92e65b1f689d4b9668ad43841717f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:58 +0000
Subject: [PATCH 15/71] fix: do not ignore read errors in the file stream

---
 parser/file_stream.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/parser/file_stream.cpp b/parser/file_stream.cpp
index dc610e6..b8cdeb0 100644
--- a/parser/file_stream.cpp
+++ b/parser/file_stream.cpp
@@ -30,8 +30,7 @@ void FileStream::stop()
 
 bool FileStream::read_data(char* buff, size_t size)
 {
-    fread(buff, 1, size, _file);
-    return !feof(_file);
+    return fread(buff, 1, size, _file) == size;
 }
 
 int FileStream::read_byte()
-- 
2.43.0


From a88096747d4490fe49290ea4f2565ab6e18c90de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:58 +0000
Subject: [PATCH 16/71] fix: return bytes above 127 from the TCP stream as
 positive values

---
 client_utils/tcp_client_stream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client_utils/tcp_client_stream.cpp b/client_utils/tcp_client_stream.cpp
index b06546c..7759179 100644
--- a/client_utils/tcp_client_stream.cpp
+++ b/client_utils/tcp_client_stream.cpp
@@ -153,7 +153,7 @@ int TCPClientStream::read_byte()
     else
     {
         auto& buffer = _datas.front();
-        int b = buffer.second[buffer.first++];
+        int b = (unsigned char)buffer.second[buffer.first++];
         _pop_if_used();
         return b;
     }
-- 
2.43.0


From d311e1e5021c70191ace83cc75f549dc3486e013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:34 +0000
Subject: [PATCH 17/71] fix: stop the TCP stream safely at any moment

---
 .../client_utils/tcp_client_stream.hpp        |  1 +
 client_utils/tcp_client_stream.cpp            | 44 ++++++++++++++-----
 2 files changed, 35 insertions(+), 10 deletions(-)

diff --git a/client_utils/include/hawktracer/client_utils/tcp_client_stream.hpp b/client_utils/include/hawktracer/client_utils/tcp_client_stream.hpp
index 54b6135..5cb10e7 100644
--- a/client_utils/include/hawktracer/client_utils/tcp_client_stream.hpp
+++ b/client_utils/include/hawktracer/client_utils/tcp_client_stream.hpp
@@ -32,6 +32,7 @@ public:
 
 private:
     void _run();
+    void _disconnect();
 
     bool _wait_for_data(std::unique_lock<std::mutex>& l);
     void _pop_if_used() { if (_datas.front().second.size() == _datas.front().first) { _datas.pop(); } }
diff --git a/client_utils/tcp_client_stream.cpp b/client_utils/tcp_client_stream.cpp
index 7759179..af655ea 100644
--- a/client_utils/tcp_client_stream.cpp
+++ b/client_utils/tcp_client_stream.cpp
@@ -25,6 +25,15 @@ static int close_socket(int sock_fd)
 #endif
 }
 
+static int shutdown_socket(int sock_fd)
+{
+#ifdef _WIN32
+    return shutdown(sock_fd, SD_BOTH);
+#else
+    return shutdown(sock_fd, SHUT_RDWR);
+#endif
+}
+
 TCPClientStream::TCPClientStream(const std::string& ip_address, uint16_t port, bool wait_for_server) :
     _sock_fd(-1),
     _ip_address(ip_address),
@@ -40,7 +49,7 @@ TCPClientStream::~TCPClientStream()
 
 bool TCPClientStream::start()
 {
-    if (is_connected())
+    if (is_connected() || _thread.joinable())
     {
         stop();
     }
@@ -89,20 +98,38 @@ bool TCPClientStream::start()
 
 void TCPClientStream::stop()
 {
-    if (is_connected())
     {
-        close_socket(_sock_fd);
-        _sock_fd = -1;
+        std::lock_guard<std::mutex> l(_datas_mtx);
+        if (is_connected())
+        {
+            // wakes up the receiving thread
+            shutdown_socket(_sock_fd);
+        }
+    }
+
+    if (_thread.joinable())
+    {
+        _thread.join();
     }
 
+    _disconnect();
+
 #ifdef _WIN32
     WSACleanup();
 #endif
+}
 
-    if (_thread.joinable())
+void TCPClientStream::_disconnect()
+{
     {
-        _thread.join();
+        std::lock_guard<std::mutex> l(_datas_mtx);
+        if (is_connected())
+        {
+            close_socket(_sock_fd);
+            _sock_fd = -1;
+        }
     }
+    _datas_cv.notify_all();
 }
 
 void TCPClientStream::_run()
@@ -115,8 +142,7 @@ void TCPClientStream::_run()
         
         if (size == 0 || size == -1)
         {
-            close_socket(_sock_fd);
-            _sock_fd = -1;
+            _disconnect();
         }
         else if (size > 0)
         {
@@ -127,8 +153,6 @@ void TCPClientStream::_run()
             _datas_cv.notify_one();
         }
     }
-
-    _datas_cv.notify_one();
 }
 
 bool TCPClientStream::is_connected() const
-- 
2.43.0


From 7f25fd19bdb1f227666b0a94d1360ff30a18c51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:34 +0000
Subject: [PATCH 18/71] fix: do not close the TCP stream when receiving data is
 interrupted by a signal

---
 client_utils/tcp_client_stream.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/client_utils/tcp_client_stream.cpp b/client_utils/tcp_client_stream.cpp
index af655ea..f1cebd0 100644
--- a/client_utils/tcp_client_stream.cpp
+++ b/client_utils/tcp_client_stream.cpp
@@ -8,6 +8,7 @@
 #include <arpa/inet.h>
 #include <unistd.h>
 #endif
+#include <cerrno>
 #include <cstring>
 
 namespace HawkTracer
@@ -139,7 +140,13 @@ void TCPClientStream::_run()
     while (is_connected())
     {
         int size = recv(_sock_fd, buf, BUFSIZE, 0);
-        
+
+#ifndef _WIN32
+        if (size == -1 && errno == EINTR)
+        {
+            continue;
+        }
+#endif
         if (size == 0 || size == -1)
         {
             _disconnect();
-- 
2.43.0


From 9b0b1a6497b00eb390c4bac92c3c7cf1c80804c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:19 +0000
Subject: [PATCH 19/71] fix: stop reading when the stream refers to unknown or
 unsupported types

---
 parser/event_klass.cpp                        |  4 +--
 .../hawktracer/parser/protocol_reader.hpp     |  2 ++
 parser/protocol_reader.cpp                    | 34 ++++++++++++++++---
 3 files changed, 33 insertions(+), 7 deletions(-)

diff --git a/parser/event_klass.cpp b/parser/event_klass.cpp
index 3e39284..ba35633 100644
--- a/parser/event_klass.cpp
+++ b/parser/event_klass.cpp
@@ -81,7 +81,7 @@ FieldTypeId get_type_id(uint64_t type_size, HT_MKCREFLECT_Types_Ext data_type)
         break;
     case HT_MKCREFLECT_TYPES_EXT_STRUCT:
         return FieldTypeId::STRUCT;
-    default: assert(0); // TODO other types
+    default: // TODO other types
         throw std::runtime_error("invalid type id");
     }
 }
@@ -107,7 +107,7 @@ std::shared_ptr<const EventKlassField> EventKlass::_get_field(const char* name,
         {
             return field;
         }
-        else if (field->get_type_id() == FieldTypeId::STRUCT && recursive)
+        else if (field->get_type_id() == FieldTypeId::STRUCT && recursive && field->get_klass())
         {
             auto base_field = field->get_klass()->get_field(name, recursive);
             if (base_field)
diff --git a/parser/include/hawktracer/parser/protocol_reader.hpp b/parser/include/hawktracer/parser/protocol_reader.hpp
index c69c87a..75d13ce 100644
--- a/parser/include/hawktracer/parser/protocol_reader.hpp
+++ b/parser/include/hawktracer/parser/protocol_reader.hpp
@@ -49,6 +49,8 @@ private:
     std::condition_variable _cv;
     std::mutex _mtx_cv;
     bool _flat_events;
+    bool _is_stream_corrupted = false;
+    unsigned _struct_depth = 0;
     HT_Endianness _endianness = HT_ENDIANNESS_LITTLE;
 };
 
diff --git a/parser/protocol_reader.cpp b/parser/protocol_reader.cpp
index aed49d0..4cde93c 100644
--- a/parser/protocol_reader.cpp
+++ b/parser/protocol_reader.cpp
@@ -12,13 +12,23 @@ namespace HawkTracer
 namespace parser
 {
 
+static const unsigned MAX_STRUCT_DEPTH = 64;
+
 ProtocolReader::ProtocolReader(KlassRegister* klass_register, std::unique_ptr<Stream> stream, bool flat_events) :
     _klass_register(klass_register),
     _stream(std::move(stream)),
     _flat_events(flat_events)
 {
     register_events_listener([this] (const Event& event) {
-        _klass_register->handle_register_events(event);
+        try
+        {
+            _klass_register->handle_register_events(event);
+        }
+        catch (const std::exception&)
+        {
+            // Unable to interpret events of a klass which can't be registered
+            _is_stream_corrupted = true;
+        }
     });
 }
 
@@ -67,7 +77,7 @@ void ProtocolReader::wait_for_complete()
 
 void ProtocolReader::_read_events()
 {
-    while (_is_running)
+    while (_is_running && !_is_stream_corrupted)
     {
         bool is_error = false;
         Event base_event(_klass_register->get_klass(to_underlying(WellKnownKlasses::EventKlass)));
@@ -86,7 +96,13 @@ void ProtocolReader::_read_events()
             continue;
         }
 
-        Event event(_klass_register->get_klass(base_event.get_value<uint32_t>("klass_id")));
+        auto klass = _klass_register->get_klass(klass_id);
+        if (!klass)
+        {
+            break;
+        }
+
+        Event event(std::move(klass));
         if (_flat_events)
         {
             _read_event(is_error, event, nullptr);
@@ -232,9 +248,17 @@ bool ProtocolReader::_read_struct(FieldType& value, const EventKlassField& field
     }
     else
     {
-        bool is_error;
-        Event sub_event(_klass_register->get_klass(_klass_register->get_klass_id(field.get_type_name())));
+        bool is_error = true;
+        auto klass = _klass_register->get_klass(field.get_type_name());
+        if (!klass || _struct_depth == MAX_STRUCT_DEPTH)
+        {
+            return false;
+        }
+
+        ++_struct_depth;
+        Event sub_event(std::move(klass));
         _read_event(is_error, sub_event, base_event);
+        --_struct_depth;
         if (_flat_events)
         {
             event->merge(std::move(sub_event));
-- 
2.43.0


From fd265c19543c3a3a807c99b573b19098ce23de89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:42 +0000
Subject: [PATCH 20/71] fix: assign thread identifiers atomically

---
 lib/thread.c | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/lib/thread.c b/lib/thread.c
index 4925b8f..fb44c60 100644
--- a/lib/thread.c
+++ b/lib/thread.c
@@ -1,6 +1,24 @@
 #include "hawktracer/thread.h"
 
-static HT_ThreadId _ht_current_thread_id = 0; // TODO: this must be atomic
+#if defined(_MSC_VER)
+#include <windows.h>
+
+static volatile LONG _ht_current_thread_id = 0;
+
+static HT_ThreadId
+_ht_thread_get_next_id(void)
+{
+    return (HT_ThreadId)InterlockedIncrement(&_ht_current_thread_id);
+}
+#else
+static HT_ThreadId _ht_current_thread_id = 0;
+
+static HT_ThreadId
+_ht_thread_get_next_id(void)
+{
+    return __sync_add_and_fetch(&_ht_current_thread_id, 1);
+}
+#endif
 
 HT_ThreadId
 ht_thread_get_current_thread_id(void)
@@ -9,7 +27,7 @@ ht_thread_get_current_thread_id(void)
 
     if (!thread_id)
     {
-        thread_id = ++_ht_current_thread_id;
+        thread_id = _ht_thread_get_next_id();
     }
 
     return thread_id;
-- 
2.43.0


From 7d3792260da5886ceede7167183024b91a01038a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:42 +0000
Subject: [PATCH 21/71] fix: set the identifier of a registered feature under
 the lock

---
 lib/registry.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/registry.c b/lib/registry.c
index f28ea0f..0e0d2c8 100644
--- a/lib/registry.c
+++ b/lib/registry.c
@@ -55,10 +55,10 @@ HT_ErrorCode ht_registry_register_feature(HT_FeatureKlass* klass)
     feature_register[feature_count++] = HT_TRUE;
 
 register_feature_finalize:
-    ht_mutex_unlock(features_register_mutex);
-
     klass->id = feature_id;
 
+    ht_mutex_unlock(features_register_mutex);
+
     return err;
 }
 
-- 
2.43.0


From 34a7c4e925b9ed576b9d42d6a7a4ed7995860695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:42 +0000
Subject: [PATCH 22/71] fix: register an event klass only once when threads
 race

---
 lib/registry.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/lib/registry.c b/lib/registry.c
index 0e0d2c8..c932d5f 100644
--- a/lib/registry.c
+++ b/lib/registry.c
@@ -100,19 +100,20 @@ done:
 HT_EventKlassId
 ht_registry_register_event_klass(HT_EventKlass* event_klass)
 {
-    if (event_klass->klass_id == HT_INVALID_KLASS_ID)
-    {
-        ht_mutex_lock(event_klass_registry_register_mutex);
+    HT_EventKlassId klass_id;
 
-        if (ht_bag_void_ptr_add(&event_klass_register, event_klass) == HT_ERR_OK)
-        {
-            event_klass->klass_id = (HT_EventKlassId)event_klass_register.size - 1;
-        }
+    ht_mutex_lock(event_klass_registry_register_mutex);
 
-        ht_mutex_unlock(event_klass_registry_register_mutex);
+    if (event_klass->klass_id == HT_INVALID_KLASS_ID
+            && ht_bag_void_ptr_add(&event_klass_register, event_klass) == HT_ERR_OK)
+    {
+        event_klass->klass_id = (HT_EventKlassId)event_klass_register.size - 1;
     }
+    klass_id = event_klass->klass_id;
+
+    ht_mutex_unlock(event_klass_registry_register_mutex);
 
-    return event_klass->klass_id;
+    return klass_id;
 }
 
 HT_EventKlass**
-- 
2.43.0


From 40bd4c9a6b268269587442dbafad545ea6620f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:42 +0000
Subject: [PATCH 23/71] fix: do not overflow the buffer when pushing
 unserialized metadata

---
 lib/registry.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/registry.c b/lib/registry.c
index c932d5f..94466b4 100644
--- a/lib/registry.c
+++ b/lib/registry.c
@@ -262,6 +262,14 @@ _ht_registry_init_event_klass_field_info_event(HT_EventKlass* klass, size_t fiel
     event->size = info->size;
 }
 
+static size_t
+_ht_registry_get_event_size(HT_Event* event, HT_Boolean serialize)
+{
+    HT_EventKlass* klass = HT_EVENT_GET_KLASS(event);
+
+    return serialize ? klass->get_size(event) : klass->type_info->size;
+}
+
 static size_t
 _ht_registry_push_class_to_listener(HT_EventKlass* klass, HT_Byte* data, size_t* data_pos, HT_TimelineListenerCallback callback, void* listener, HT_Boolean serialize)
 {
@@ -270,7 +278,7 @@ _ht_registry_push_class_to_listener(HT_EventKlass* klass, HT_Byte* data, size_t*
     HT_DECL_EVENT(HT_EventKlassInfoEvent, event);
     _ht_registry_init_event_klass_info_event(klass, &event);
 
-    if (ht_HT_EventKlassInfoEvent_get_size(HT_EVENT(&event)) > REGISTRY_LISETNER_BUFF_SIZE - *data_pos)
+    if (_ht_registry_get_event_size(HT_EVENT(&event), serialize) > REGISTRY_LISETNER_BUFF_SIZE - *data_pos)
     {
         callback(data, *data_pos, serialize, listener);
         total_size += *data_pos;
@@ -284,7 +292,7 @@ _ht_registry_push_class_to_listener(HT_EventKlass* klass, HT_Byte* data, size_t*
         HT_DECL_EVENT(HT_EventKlassFieldInfoEvent, field_event);
         _ht_registry_init_event_klass_field_info_event(klass, j, &field_event);
 
-        if (ht_HT_EventKlassFieldInfoEvent_get_size(HT_EVENT(&field_event)) > REGISTRY_LISETNER_BUFF_SIZE - *data_pos)
+        if (_ht_registry_get_event_size(HT_EVENT(&field_event), serialize) > REGISTRY_LISETNER_BUFF_SIZE - *data_pos)
         {
             callback(data, *data_pos, serialize, listener);
             total_size += *data_pos;
-- 
2.43.0


From ee7035cf0be8f2bc56b59da114eba782fc8eaa0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:34 +0000
Subject: [PATCH 24/71] fix: do not mix up listener groups and cached strings
 of different names

---
 lib/feature_cached_string.c                        |  2 +-
 lib/include/internal/hash.h                        |  7 ++++---
 lib/include/internal/timeline_listener_container.h |  4 ++--
 lib/registry.c                                     | 10 +++++-----
 lib/timeline_listener.c                            |  6 +++---
 5 files changed, 15 insertions(+), 14 deletions(-)

diff --git a/lib/feature_cached_string.c b/lib/feature_cached_string.c
index 0cd7c8b..c14f2ea 100644
--- a/lib/feature_cached_string.c
+++ b/lib/feature_cached_string.c
@@ -171,7 +171,7 @@ ht_feature_cached_string_add_mapping_dynamic(HT_Timeline* timeline, const char*
 
     assert(f);
 
-    hash_value = djb2_hash(label);
+    hash_value = (uintptr_t)ht_hash_string(label);
 
     HT_FCS_LOCK_(f);
 
diff --git a/lib/include/internal/hash.h b/lib/include/internal/hash.h
index 468f9eb..9ea1421 100644
--- a/lib/include/internal/hash.h
+++ b/lib/include/internal/hash.h
@@ -7,14 +7,15 @@
 
 HT_DECLS_BEGIN
 
-static uint32_t djb2_hash(const char *str)
+/* 64-bit FNV-1a */
+static uint64_t ht_hash_string(const char *str)
 {
-    uint32_t hash = 5381;
+    uint64_t hash = UINT64_C(14695981039346656037);
     char c;
 
     while ((c = *str++))
     {
-        hash = ((hash << 5) + hash) + (unsigned int)c; /* hash * 33 + c */
+        hash = (hash ^ (unsigned char)c) * UINT64_C(1099511628211);
     }
 
     return hash;
diff --git a/lib/include/internal/timeline_listener_container.h b/lib/include/internal/timeline_listener_container.h
index 106bfdc..4a82bee 100644
--- a/lib/include/internal/timeline_listener_container.h
+++ b/lib/include/internal/timeline_listener_container.h
@@ -9,9 +9,9 @@ typedef struct _HT_TimelineListenerContainer HT_TimelineListenerContainer;
 
 void ht_timeline_listener_container_notify_listeners(HT_TimelineListenerContainer* listeners, TEventPtr events, size_t size, HT_Boolean serialize_events);
 
-uint32_t ht_timeline_listener_container_get_id(HT_TimelineListenerContainer* listeners);
+uint64_t ht_timeline_listener_container_get_id(HT_TimelineListenerContainer* listeners);
 
-void ht_timeline_listener_container_set_id(HT_TimelineListenerContainer* container, uint32_t id);
+void ht_timeline_listener_container_set_id(HT_TimelineListenerContainer* container, uint64_t id);
 
 void ht_timeline_listener_container_ref(HT_TimelineListenerContainer* container);
 
diff --git a/lib/registry.c b/lib/registry.c
index 94466b4..2bf3fd8 100644
--- a/lib/registry.c
+++ b/lib/registry.c
@@ -143,7 +143,7 @@ ht_registry_deinit(void)
 
 /* listeners_register_mutex must be locked by the caller */
 static HT_TimelineListenerContainer*
-_ht_registry_find_listener_container(uint32_t id)
+_ht_registry_find_listener_container(uint64_t id)
 {
     size_t i;
 
@@ -160,7 +160,7 @@ _ht_registry_find_listener_container(uint32_t id)
 
 /* listeners_register_mutex must be locked by the caller */
 static HT_ErrorCode
-_ht_registry_register_listener_container(uint32_t id, HT_TimelineListenerContainer* container)
+_ht_registry_register_listener_container(uint64_t id, HT_TimelineListenerContainer* container)
 {
     HT_ErrorCode error_code = ht_bag_void_ptr_add(&listeners_register, container);
 
@@ -179,7 +179,7 @@ ht_registry_find_listener_container(const char* name)
     HT_TimelineListenerContainer* container;
 
     ht_mutex_lock(listeners_register_mutex);
-    container = _ht_registry_find_listener_container(djb2_hash(name));
+    container = _ht_registry_find_listener_container(ht_hash_string(name));
     ht_mutex_unlock(listeners_register_mutex);
 
     return container;
@@ -189,7 +189,7 @@ HT_ErrorCode
 ht_registry_register_listener_container(const char* name, HT_TimelineListenerContainer* container)
 {
     HT_ErrorCode error_code = HT_ERR_LISTENER_CONTAINER_ALREADY_REGISTERED;
-    uint32_t id = djb2_hash(name);
+    uint64_t id = ht_hash_string(name);
 
     ht_mutex_lock(listeners_register_mutex);
     if (_ht_registry_find_listener_container(id) == NULL)
@@ -205,7 +205,7 @@ HT_TimelineListenerContainer*
 ht_registry_find_or_create_listener_container(const char* name)
 {
     HT_TimelineListenerContainer* container;
-    uint32_t id = djb2_hash(name);
+    uint64_t id = ht_hash_string(name);
 
     ht_mutex_lock(listeners_register_mutex);
     container = _ht_registry_find_listener_container(id);
diff --git a/lib/timeline_listener.c b/lib/timeline_listener.c
index 79cc5f3..713fd44 100644
--- a/lib/timeline_listener.c
+++ b/lib/timeline_listener.c
@@ -25,7 +25,7 @@ struct _HT_TimelineListenerContainer
 {
     HT_BagListener entries;
     HT_Mutex* mutex;
-    uint32_t id;
+    uint64_t id;
     uint32_t refcount;
 };
 
@@ -47,13 +47,13 @@ _ht_timeline_listener_container_unregister_all_listeners(
     ht_bag_listener_clear(&container->entries);
 }
 
-uint32_t
+uint64_t
 ht_timeline_listener_container_get_id(HT_TimelineListenerContainer* container)
 {
     return container->id;
 }
 
-void ht_timeline_listener_container_set_id(HT_TimelineListenerContainer* container, uint32_t id)
+void ht_timeline_listener_container_set_id(HT_TimelineListenerContainer* container, uint64_t id)
 {
     container->id = id;
 }
-- 
2.43.0


From f7b86c3777b82735ede0571de5fb03ae8c2bd349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:31 +0000
Subject: [PATCH 25/71] fix: keep the registered data when the library is
 initialized again

---
 lib/init.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/init.c b/lib/init.c
index b6cb515..ea078a8 100644
--- a/lib/init.c
+++ b/lib/init.c
@@ -13,6 +13,12 @@ static int _ht_init_counter = 0;
 void
 ht_init(int argc, char** argv)
 {
+    if (_ht_init_counter > 0)
+    {
+        _ht_init_counter++;
+        return;
+    }
+
     ht_command_line_parse_args(argc, argv);
 
     ht_registry_init();
-- 
2.43.0


From 81c1f3603fc11001413ce91bd76ef0bee784b703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:00 +0000
Subject: [PATCH 26/71] fix: register event klasses again after the library was
 uninitialized

---
 lib/registry.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lib/registry.c b/lib/registry.c
index 2bf3fd8..956ab26 100644
--- a/lib/registry.c
+++ b/lib/registry.c
@@ -97,6 +97,15 @@ done:
     return error_code;
 }
 
+/* event_klass_registry_register_mutex must be locked by the caller */
+static HT_Boolean
+_ht_registry_is_event_klass_registered(HT_EventKlass* event_klass)
+{
+    /* The identifier might come from the previous initialization of the registry */
+    return event_klass->klass_id < event_klass_register.size
+            && event_klass_register.data[event_klass->klass_id] == event_klass;
+}
+
 HT_EventKlassId
 ht_registry_register_event_klass(HT_EventKlass* event_klass)
 {
@@ -104,7 +113,7 @@ ht_registry_register_event_klass(HT_EventKlass* event_klass)
 
     ht_mutex_lock(event_klass_registry_register_mutex);
 
-    if (event_klass->klass_id == HT_INVALID_KLASS_ID
+    if (!_ht_registry_is_event_klass_registered(event_klass)
             && ht_bag_void_ptr_add(&event_klass_register, event_klass) == HT_ERR_OK)
     {
         event_klass->klass_id = (HT_EventKlassId)event_klass_register.size - 1;
-- 
2.43.0


From c2b1f19b99597581b65e21924421541fa1c11fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:40 +0000
Subject: [PATCH 27/71] fix: ignore stopping a tracepoint which was not started

---
 lib/feature_callstack.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/feature_callstack.c b/lib/feature_callstack.c
index 71f2d96..e503a92 100644
--- a/lib/feature_callstack.c
+++ b/lib/feature_callstack.c
@@ -63,8 +63,14 @@ void
 ht_feature_callstack_stop(HT_Timeline* timeline)
 {
     HT_FeatureCallstack* f = HT_FeatureCallstack_from_timeline(timeline);
-    HT_CallstackBaseEvent* event = (HT_CallstackBaseEvent*)ht_stack_top(&f->stack);
+    HT_CallstackBaseEvent* event;
 
+    if (ht_bag_size(f->stack.sizes_stack) == 0)
+    {
+        return;
+    }
+
+    event = (HT_CallstackBaseEvent*)ht_stack_top(&f->stack);
     event->duration = ht_monotonic_clock_get_timestamp() - HT_EVENT(event)->timestamp;
     event->thread_id = ht_thread_get_current_thread_id();
 
-- 
2.43.0


From 65650c26a2c387e19aedae90c4dbd99f7e4babd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:46 +0000
Subject: [PATCH 28/71] fix: keep tracepoints matched when there is no memory
 to start one

---
 lib/feature_callstack.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/lib/feature_callstack.c b/lib/feature_callstack.c
index e503a92..bf69802 100644
--- a/lib/feature_callstack.c
+++ b/lib/feature_callstack.c
@@ -9,6 +9,7 @@ typedef struct
 {
     HT_Feature base;
     HT_Stack stack;
+    size_t dropped_count; /* number of the innermost unfinished events that are not on the stack */
 } HT_FeatureCallstack;
 
 static void
@@ -28,6 +29,7 @@ ht_feature_callstack_create(HT_ErrorCode* out_err)
         return NULL;
     }
 
+    feature->dropped_count = 0;
     error_code = ht_stack_init(&feature->stack, 1024, 32);
 
     if (error_code != HT_ERR_OK)
@@ -55,8 +57,11 @@ ht_feature_callstack_start(HT_Timeline* timeline, HT_CallstackBaseEvent* event)
     HT_FeatureCallstack* f = HT_FeatureCallstack_from_timeline(timeline);
 
     ht_timeline_init_event(timeline, HT_EVENT(event));
-    /* TODO: handle ht_stack_push() error */
-    ht_stack_push(&f->stack, event, event->base.klass->type_info->size);
+    if (f->dropped_count > 0
+            || ht_stack_push(&f->stack, event, event->base.klass->type_info->size) != HT_ERR_OK)
+    {
+        f->dropped_count++;
+    }
 }
 
 void
@@ -65,6 +70,12 @@ ht_feature_callstack_stop(HT_Timeline* timeline)
     HT_FeatureCallstack* f = HT_FeatureCallstack_from_timeline(timeline);
     HT_CallstackBaseEvent* event;
 
+    if (f->dropped_count > 0)
+    {
+        f->dropped_count--;
+        return;
+    }
+
     if (ht_bag_size(f->stack.sizes_stack) == 0)
     {
         return;
-- 
2.43.0


From e2b67cf299be93de156b6a3828cb2e99972fb061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:43 +0000
Subject: [PATCH 29/71] fix: put a string mapping in the stream before another
 thread can use it

---
 lib/feature_cached_string.c | 65 +++++++++++++++++++++----------------
 1 file changed, 37 insertions(+), 28 deletions(-)

diff --git a/lib/feature_cached_string.c b/lib/feature_cached_string.c
index c14f2ea..2b0f11d 100644
--- a/lib/feature_cached_string.c
+++ b/lib/feature_cached_string.c
@@ -109,36 +109,39 @@ ht_feature_cached_string_destroy(HT_Feature* f)
     ht_free(feature);
 }
 
-static uintptr_t
+/* The feature must be locked by the caller, so no other thread uses the identifier before it's in the stream */
+static HT_ErrorCode
 ht_feature_cached_string_add_mapping_(HT_Timeline* timeline, HT_HashMap* map, uintptr_t hash, const char* label)
 {
-    HT_FeatureCachedString* f = HT_FeatureCachedString_from_timeline(timeline);
     HT_ErrorCode error_code;
 
-    assert(f);
-
-    HT_FCS_LOCK_(f);
-
-    const char* ret = ht_hash_map_insert(map, hash, label, &error_code);
-
-    HT_FCS_UNLOCK_(f);
-    if (error_code != HT_ERR_OK)
-    {
-        return 0;
-    }
-
-    if (ret == NULL)
+    ht_hash_map_insert(map, hash, label, &error_code);
+    if (error_code == HT_ERR_OK)
     {
         HT_TIMELINE_PUSH_EVENT(timeline, HT_StringMappingEvent, hash, label);
     }
-    return hash;
+
+    return error_code;
 }
 
 uintptr_t
 ht_feature_cached_string_add_mapping(HT_Timeline* timeline, const char* label)
 {
     HT_FeatureCachedString* f = HT_FeatureCachedString_from_timeline(timeline);
-    return ht_feature_cached_string_add_mapping_(timeline, &f->static_hashes, (uintptr_t)label, label);
+    HT_ErrorCode error_code = HT_ERR_OK;
+
+    assert(f);
+
+    HT_FCS_LOCK_(f);
+
+    if (ht_hash_map_get_value(&f->static_hashes, (uintptr_t)label) == NULL)
+    {
+        error_code = ht_feature_cached_string_add_mapping_(timeline, &f->static_hashes, (uintptr_t)label, label);
+    }
+
+    HT_FCS_UNLOCK_(f);
+
+    return error_code == HT_ERR_OK ? (uintptr_t)label : 0;
 }
 
 static HT_Boolean
@@ -177,20 +180,26 @@ ht_feature_cached_string_add_mapping_dynamic(HT_Timeline* timeline, const char*
 
     if (ht_hash_map_get_value(&f->dynamic_hashes, hash_value) == NULL)
     {
-        HT_FCS_UNLOCK_(f);
+        size_t label_size = strlen(label) + 1;
+        char* new_label = (char*)ht_alloc(label_size);
 
-        size_t label_len = strlen(label);
-        char* new_label = (char*)ht_alloc(label_len + 1);
-        memcpy(new_label, label, label_len);
-        new_label[label_len] = 0;
-
-        ht_feature_cached_string_add_mapping_(timeline, &f->dynamic_hashes, hash_value, new_label);
-    }
-    else
-    {
-        HT_FCS_UNLOCK_(f);
+        if (new_label == NULL)
+        {
+            hash_value = 0;
+        }
+        else
+        {
+            memcpy(new_label, label, label_size);
+            if (ht_feature_cached_string_add_mapping_(timeline, &f->dynamic_hashes, hash_value, new_label) != HT_ERR_OK)
+            {
+                ht_free(new_label);
+                hash_value = 0;
+            }
+        }
     }
 
+    HT_FCS_UNLOCK_(f);
+
     return hash_value;
 }
 
-- 
2.43.0


From d40716c3061886cfe9a5c5700c2233c02d1345db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:24 +0000
Subject: [PATCH 30/71] fix: drop unread data of the previous connection when
 the TCP stream starts

---
 client_utils/tcp_client_stream.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/client_utils/tcp_client_stream.cpp b/client_utils/tcp_client_stream.cpp
index f1cebd0..c2e3651 100644
--- a/client_utils/tcp_client_stream.cpp
+++ b/client_utils/tcp_client_stream.cpp
@@ -55,6 +55,12 @@ bool TCPClientStream::start()
         stop();
     }
 
+    {
+        // drop unread data of the previous connection
+        std::lock_guard<std::mutex> l(_datas_mtx);
+        _datas = {};
+    }
+
 #ifdef _WIN32
     WSAData wsa_data;
     if (WSAStartup(MAKEWORD(2, 2), &wsa_data) != 0)
-- 
2.43.0


From 910966607d319a91085723bf83f3500d1e048e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:33 +0000
Subject: [PATCH 31/71] fix: let tasks add and remove tasks of their scheduler

---
 lib/task_scheduler.c | 64 +++++++++++++++++++++++++++-----------------
 1 file changed, 40 insertions(+), 24 deletions(-)

diff --git a/lib/task_scheduler.c b/lib/task_scheduler.c
index beb16ca..f68c835 100644
--- a/lib/task_scheduler.c
+++ b/lib/task_scheduler.c
@@ -12,6 +12,7 @@ struct _HT_TaskScheduler
 {
     HT_BagVoidPtr tasks;
     HT_TaskId next_task_id;
+    HT_Boolean is_ticking;
 };
 
 typedef struct
@@ -22,6 +23,7 @@ typedef struct
     HT_TimestampNs next_action_ts;
     HT_TaskId id;
     HT_TaskSchedulingMode mode;
+    HT_Boolean is_removed; /* removed during the tick, freed at the end of it */
 } HT_Task;
 
 #define HT_TASK(task) ((HT_Task*)task)
@@ -60,6 +62,7 @@ ht_task_scheduler_create(HT_ErrorCode* out_err)
     }
 
     task_scheduler->next_task_id = 0;
+    task_scheduler->is_ticking = HT_FALSE;
 
 done:
     HT_SET_ERROR(out_err, error_code);
@@ -106,6 +109,7 @@ ht_task_scheduler_schedule_task(HT_TaskScheduler* task_scheduler,
     task->next_action_ts = ht_monotonic_clock_get_timestamp() + period;
     task->id = task_scheduler->next_task_id++;
     task->mode = mode;
+    task->is_removed = HT_FALSE;
 
     if (ht_bag_void_ptr_add(&task_scheduler->tasks, task) != HT_ERR_OK)
     {
@@ -115,28 +119,47 @@ ht_task_scheduler_schedule_task(HT_TaskScheduler* task_scheduler,
     return task->id;
 }
 
+static void
+_ht_task_scheduler_free_removed_tasks(HT_TaskScheduler* task_scheduler)
+{
+    size_t i = 0;
+
+    while (i < task_scheduler->tasks.size)
+    {
+        HT_Task* task = HT_TASK(task_scheduler->tasks.data[i]);
+        if (task->is_removed)
+        {
+            ht_bag_void_ptr_remove_nth(&task_scheduler->tasks, i);
+            ht_free(task);
+        }
+        else
+        {
+            i++;
+        }
+    }
+}
+
 void
 ht_task_scheduler_tick(HT_TaskScheduler* task_scheduler)
 {
     size_t i;
-    HT_Boolean result;
+
+    /* callbacks might add and remove tasks, so until the end of the tick,
+       tasks are neither freed nor moved in the bag */
+    task_scheduler->is_ticking = HT_TRUE;
 
     for (i = 0; i < task_scheduler->tasks.size; i++)
     {
         HT_Task* task = HT_TASK(task_scheduler->tasks.data[i]);
         HT_TimestampNs now_ts = ht_monotonic_clock_get_timestamp();
-        if (task->next_action_ts > now_ts)
+        if (task->is_removed || task->next_action_ts > now_ts)
         {
             continue;
         }
 
-        result = task->callback(task->user_data);
-
-        if (result == HT_FALSE)
+        if (task->callback(task->user_data) == HT_FALSE)
         {
-            ht_bag_void_ptr_remove_nth(&task_scheduler->tasks, i);
-            ht_free(task);
-            i--;
+            task->is_removed = HT_TRUE;
         }
         else
         {
@@ -145,19 +168,9 @@ ht_task_scheduler_tick(HT_TaskScheduler* task_scheduler)
                         ht_monotonic_clock_get_timestamp() + task->period;
         }
     }
-}
 
-static void
-ht_task_scheduler_remove_task_entry(HT_BagVoidPtr* tasks, HT_Task* task) \
-{
-    size_t i;
-    for (i = 0; i < tasks->size; i++)
-    {
-        if (tasks->data[i] == task)
-        {
-            ht_bag_void_ptr_remove_nth(tasks, i);
-        }
-    }
+    task_scheduler->is_ticking = HT_FALSE;
+    _ht_task_scheduler_free_removed_tasks(task_scheduler);
 }
 
 HT_Boolean
@@ -173,10 +186,13 @@ ht_task_scheduler_remove_task(HT_TaskScheduler* task_scheduler, HT_TaskId task_i
     for (i = 0; i < task_scheduler->tasks.size; i++)
     {
         HT_Task* task = HT_TASK(task_scheduler->tasks.data[i]);
-        if (task->id == task_id)
+        if (task->id == task_id && !task->is_removed)
         {
-            ht_task_scheduler_remove_task_entry(&task_scheduler->tasks, task);
-            ht_free(task);
+            task->is_removed = HT_TRUE;
+            if (!task_scheduler->is_ticking)
+            {
+                _ht_task_scheduler_free_removed_tasks(task_scheduler);
+            }
             return HT_TRUE;
         }
     }
@@ -194,7 +210,7 @@ ht_task_scheduler_get_optimal_tick_period(HT_TaskScheduler* task_scheduler)
     {
         HT_DurationNs task_period = HT_TASK(task_scheduler->tasks.data[task_pos])->period;
 
-        if (task_period == 0)
+        if (task_period == 0 || HT_TASK(task_scheduler->tasks.data[task_pos])->is_removed)
         {
             continue;
         }
-- 
2.43.0


From e989fb78932881de238b062d1e58fb68be179829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:33 +0000
Subject: [PATCH 32/71] fix: free a task which could not be scheduled

---
 lib/task_scheduler.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/task_scheduler.c b/lib/task_scheduler.c
index f68c835..eb9d2c6 100644
--- a/lib/task_scheduler.c
+++ b/lib/task_scheduler.c
@@ -113,6 +113,7 @@ ht_task_scheduler_schedule_task(HT_TaskScheduler* task_scheduler,
 
     if (ht_bag_void_ptr_add(&task_scheduler->tasks, task) != HT_ERR_OK)
     {
+        ht_free(task);
         return HT_TASK_SCHEDULER_INVALID_TASK_ID;
     }
 
-- 
2.43.0


From fdcf96f72cad1d6d7babcd557c70e35a766f95bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:48 +0000
Subject: [PATCH 33/71] fix: do not initialize the library partially when there
 is no memory

---
 .../hawktracer/posix_mapped_tracepoint.h      |  2 +-
 lib/init.c                                    | 35 ++++++++++++-------
 lib/posix_mapped_tracepoint.c                 |  4 ++-
 lib/registry.c                                |  6 ++--
 4 files changed, 30 insertions(+), 17 deletions(-)

diff --git a/lib/include/hawktracer/posix_mapped_tracepoint.h b/lib/include/hawktracer/posix_mapped_tracepoint.h
index f591281..65628f5 100644
--- a/lib/include/hawktracer/posix_mapped_tracepoint.h
+++ b/lib/include/hawktracer/posix_mapped_tracepoint.h
@@ -15,7 +15,7 @@ HT_API void ht_pthread_mapped_tracepoint_leave(void);
 
 HT_API void ht_pthread_mapped_tracepoint_add_mapping(void);
 
-void _ht_posix_mapped_tracepoint_init(void);
+HT_Boolean _ht_posix_mapped_tracepoint_init(void);
 
 void _ht_posix_mapped_tracepoint_deinit(void);
 
diff --git a/lib/init.c b/lib/init.c
index ea078a8..682a169 100644
--- a/lib/init.c
+++ b/lib/init.c
@@ -21,22 +21,33 @@ ht_init(int argc, char** argv)
 
     ht_command_line_parse_args(argc, argv);
 
-    ht_registry_init();
-
-    HT_REGISTER_EVENT_KLASS(HT_EndiannessInfoEvent);
-    HT_REGISTER_EVENT_KLASS(HT_Event);
-    HT_REGISTER_EVENT_KLASS(HT_EventKlassInfoEvent);
-    HT_REGISTER_EVENT_KLASS(HT_EventKlassFieldInfoEvent);
-    HT_REGISTER_EVENT_KLASS(HT_CallstackBaseEvent);
-    HT_REGISTER_EVENT_KLASS(HT_CallstackIntEvent);
-    HT_REGISTER_EVENT_KLASS(HT_CallstackStringEvent);
-    HT_REGISTER_EVENT_KLASS(HT_StringMappingEvent);
-    HT_REGISTER_EVENT_KLASS(HT_SystemInfoEvent);
+    if (ht_registry_init() != HT_ERR_OK)
+    {
+        return;
+    }
+
+    if (HT_REGISTER_EVENT_KLASS(HT_EndiannessInfoEvent) == HT_INVALID_KLASS_ID
+            || HT_REGISTER_EVENT_KLASS(HT_Event) == HT_INVALID_KLASS_ID
+            || HT_REGISTER_EVENT_KLASS(HT_EventKlassInfoEvent) == HT_INVALID_KLASS_ID
+            || HT_REGISTER_EVENT_KLASS(HT_EventKlassFieldInfoEvent) == HT_INVALID_KLASS_ID
+            || HT_REGISTER_EVENT_KLASS(HT_CallstackBaseEvent) == HT_INVALID_KLASS_ID
+            || HT_REGISTER_EVENT_KLASS(HT_CallstackIntEvent) == HT_INVALID_KLASS_ID
+            || HT_REGISTER_EVENT_KLASS(HT_CallstackStringEvent) == HT_INVALID_KLASS_ID
+            || HT_REGISTER_EVENT_KLASS(HT_StringMappingEvent) == HT_INVALID_KLASS_ID
+            || HT_REGISTER_EVENT_KLASS(HT_SystemInfoEvent) == HT_INVALID_KLASS_ID)
+    {
+        ht_registry_deinit();
+        return;
+    }
 
     ht_feature_register_core_features();
 
 #ifdef HT_USE_PTHREADS
-    _ht_posix_mapped_tracepoint_init();
+    if (!_ht_posix_mapped_tracepoint_init())
+    {
+        ht_registry_deinit();
+        return;
+    }
 #endif
 
     _ht_init_counter++;
diff --git a/lib/posix_mapped_tracepoint.c b/lib/posix_mapped_tracepoint.c
index 1e37046..eedfc14 100644
--- a/lib/posix_mapped_tracepoint.c
+++ b/lib/posix_mapped_tracepoint.c
@@ -12,10 +12,12 @@ static HT_Mutex* _posix_mapped_tracepoint_mapped_mtx = NULL;
 static HT_Timeline* _mapped_timeline;
 static const char* _mapped_ptr;
 
-void
+HT_Boolean
 _ht_posix_mapped_tracepoint_init(void)
 {
     _posix_mapped_tracepoint_mapped_mtx = ht_mutex_create();
+
+    return _posix_mapped_tracepoint_mapped_mtx != NULL;
 }
 
 void
diff --git a/lib/registry.c b/lib/registry.c
index 956ab26..95f9410 100644
--- a/lib/registry.c
+++ b/lib/registry.c
@@ -113,10 +113,10 @@ ht_registry_register_event_klass(HT_EventKlass* event_klass)
 
     ht_mutex_lock(event_klass_registry_register_mutex);
 
-    if (!_ht_registry_is_event_klass_registered(event_klass)
-            && ht_bag_void_ptr_add(&event_klass_register, event_klass) == HT_ERR_OK)
+    if (!_ht_registry_is_event_klass_registered(event_klass))
     {
-        event_klass->klass_id = (HT_EventKlassId)event_klass_register.size - 1;
+        event_klass->klass_id = ht_bag_void_ptr_add(&event_klass_register, event_klass) == HT_ERR_OK
+                ? (HT_EventKlassId)event_klass_register.size - 1 : HT_INVALID_KLASS_ID;
     }
     klass_id = event_klass->klass_id;
 
-- 
2.43.0


From 2355c6fc52d723d237c0137bffa59ebd31a3d3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:48 +0000
Subject: [PATCH 34/71] fix: handle the lack of memory in the timeline

---
 lib/timeline.c | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/lib/timeline.c b/lib/timeline.c
index 5ad67bd..cef046c 100644
--- a/lib/timeline.c
+++ b/lib/timeline.c
@@ -70,9 +70,12 @@ ht_timeline_push_event(HT_Timeline* timeline, HT_Event* event)
             if (size > sizeof(local_buffer)/sizeof(local_buffer[0]))
             {
                 HT_Byte* buff = (HT_Byte*)ht_alloc(size);
-                event->klass->serialize(event, buff);
-                ht_timeline_listener_container_notify_listeners(timeline->listeners, buff, size, timeline->serialize_events);
-                ht_free(buff);
+                if (buff != NULL)
+                {
+                    event->klass->serialize(event, buff);
+                    ht_timeline_listener_container_notify_listeners(timeline->listeners, buff, size, timeline->serialize_events);
+                    ht_free(buff);
+                }
             }
             else
             {
@@ -192,15 +195,20 @@ ht_timeline_create(size_t buffer_capacity,
 
     if (timeline == NULL)
     {
+        error_code = HT_ERR_OUT_OF_MEMORY;
         goto done;
     }
 
-    timeline->buffer = (HT_Byte*)ht_alloc(buffer_capacity);
+    timeline->buffer = NULL;
 
-    if (timeline->buffer == NULL)
+    if (buffer_capacity > 0)
     {
-        error_code = HT_ERR_OUT_OF_MEMORY;
-        goto error_allocate_buffer;
+        timeline->buffer = (HT_Byte*)ht_alloc(buffer_capacity);
+        if (timeline->buffer == NULL)
+        {
+            error_code = HT_ERR_OUT_OF_MEMORY;
+            goto error_allocate_buffer;
+        }
     }
 
     timeline->listeners = ht_find_or_create_listener(listeners);
-- 
2.43.0


From d1d69ca2b8b5bcfdbc5913d393dadf2c32516f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:48 +0000
Subject: [PATCH 35/71] fix: remove the right key when inserting to the hash
 map fails

---
 lib/hash_map.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/hash_map.c b/lib/hash_map.c
index 44a0361..a90423a 100644
--- a/lib/hash_map.c
+++ b/lib/hash_map.c
@@ -117,7 +117,7 @@ ht_hash_map_insert(HT_HashMap* map, uint64_t key, const char* value, HT_ErrorCod
     err = ht_bag_void_ptr_add(&bucket->value_bag, (void*)value);
     if (err != HT_ERR_OK)
     {
-        ht_bag_uint64_remove_nth(&bucket->key_bag, ht_bag_size(bucket->key_bag));
+        ht_bag_uint64_remove_nth(&bucket->key_bag, ht_bag_size(bucket->key_bag) - 1);
     }
 
     HT_SET_ERROR(out_err, err);
-- 
2.43.0


From a5b2e5805c28adcd2c691003e9dac6faf7352e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:48 +0000
Subject: [PATCH 36/71] fix: handle the lack of memory when creating an event
 id provider

---
 lib/event_id_provider.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/event_id_provider.cpp b/lib/event_id_provider.cpp
index 405ca79..a117158 100644
--- a/lib/event_id_provider.cpp
+++ b/lib/event_id_provider.cpp
@@ -25,7 +25,10 @@ HT_EventIdProvider*
 ht_event_id_provider_create(void)
 {
     HT_EventIdProvider* provider = HT_CREATE_TYPE(HT_EventIdProvider);
-    provider->current_identifier = 0;
+    if (provider != NULL)
+    {
+        provider->current_identifier = 0;
+    }
     return provider;
 }
 
-- 
2.43.0


From 5db1e44d4009cbe2ea8db0cd33c11663b2fca141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:45 +0000
Subject: [PATCH 37/71] fix: handle the lack of memory when creating a global
 timeline

---
 lib/feature_cached_string.c              | 16 ++++++++++++++--
 lib/feature_callstack.c                  | 18 ++++++++++++++++--
 lib/global_timeline.cpp                  | 20 ++++++++++++++++----
 lib/include/hawktracer/global_timeline.h |  4 +++-
 4 files changed, 49 insertions(+), 9 deletions(-)

diff --git a/lib/feature_cached_string.c b/lib/feature_cached_string.c
index 2b0f11d..0b46c8d 100644
--- a/lib/feature_cached_string.c
+++ b/lib/feature_cached_string.c
@@ -127,9 +127,15 @@ ht_feature_cached_string_add_mapping_(HT_Timeline* timeline, HT_HashMap* map, ui
 uintptr_t
 ht_feature_cached_string_add_mapping(HT_Timeline* timeline, const char* label)
 {
-    HT_FeatureCachedString* f = HT_FeatureCachedString_from_timeline(timeline);
+    HT_FeatureCachedString* f;
     HT_ErrorCode error_code = HT_ERR_OK;
 
+    if (timeline == NULL)
+    {
+        return 0;
+    }
+
+    f = HT_FeatureCachedString_from_timeline(timeline);
     assert(f);
 
     HT_FCS_LOCK_(f);
@@ -169,9 +175,15 @@ ht_feature_cached_string_push_map(HT_Timeline* timeline)
 uintptr_t
 ht_feature_cached_string_add_mapping_dynamic(HT_Timeline* timeline, const char* label)
 {
-    HT_FeatureCachedString* f = HT_FeatureCachedString_from_timeline(timeline);
+    HT_FeatureCachedString* f;
     uintptr_t hash_value;
 
+    if (timeline == NULL)
+    {
+        return 0;
+    }
+
+    f = HT_FeatureCachedString_from_timeline(timeline);
     assert(f);
 
     hash_value = (uintptr_t)ht_hash_string(label);
diff --git a/lib/feature_callstack.c b/lib/feature_callstack.c
index bf69802..5e6e2ca 100644
--- a/lib/feature_callstack.c
+++ b/lib/feature_callstack.c
@@ -54,7 +54,14 @@ ht_feature_callstack_destroy(HT_Feature* feature)
 void
 ht_feature_callstack_start(HT_Timeline* timeline, HT_CallstackBaseEvent* event)
 {
-    HT_FeatureCallstack* f = HT_FeatureCallstack_from_timeline(timeline);
+    HT_FeatureCallstack* f;
+
+    if (timeline == NULL)
+    {
+        return;
+    }
+
+    f = HT_FeatureCallstack_from_timeline(timeline);
 
     ht_timeline_init_event(timeline, HT_EVENT(event));
     if (f->dropped_count > 0
@@ -67,9 +74,16 @@ ht_feature_callstack_start(HT_Timeline* timeline, HT_CallstackBaseEvent* event)
 void
 ht_feature_callstack_stop(HT_Timeline* timeline)
 {
-    HT_FeatureCallstack* f = HT_FeatureCallstack_from_timeline(timeline);
+    HT_FeatureCallstack* f;
     HT_CallstackBaseEvent* event;
 
+    if (timeline == NULL)
+    {
+        return;
+    }
+
+    f = HT_FeatureCallstack_from_timeline(timeline);
+
     if (f->dropped_count > 0)
     {
         f->dropped_count--;
diff --git a/lib/global_timeline.cpp b/lib/global_timeline.cpp
index 614c10d..1791b32 100644
--- a/lib/global_timeline.cpp
+++ b/lib/global_timeline.cpp
@@ -19,8 +19,13 @@ static HT_Timeline* _ht_global_timeline_create(void)
 {
     HT_Timeline* c_timeline = ht_timeline_create(global_timeline_buffer_size, HT_FALSE, HT_TRUE, "HT_GlobalTimeline", NULL);
 
-    ht_feature_callstack_enable(c_timeline);
-    ht_feature_cached_string_enable(c_timeline, HT_FALSE);
+    if (c_timeline != NULL
+            && (ht_feature_callstack_enable(c_timeline) != HT_ERR_OK
+                || ht_feature_cached_string_enable(c_timeline, HT_FALSE) != HT_ERR_OK))
+    {
+        ht_timeline_destroy(c_timeline);
+        c_timeline = NULL;
+    }
 
     return c_timeline;
 }
@@ -49,13 +54,15 @@ struct GlobalTimeline
 {
     GlobalTimeline()
     {
-        /* TODO: handle ht_timeline_create() error? */
         c_timeline = _ht_global_timeline_create();
     }
 
     ~GlobalTimeline()
     {
-        ht_timeline_destroy(c_timeline);
+        if (c_timeline != NULL)
+        {
+            ht_timeline_destroy(c_timeline);
+        }
     }
 
     HT_Timeline* c_timeline;
@@ -65,6 +72,11 @@ HT_Timeline* ht_global_timeline_get(void)
 {
     static HT_THREAD_LOCAL GlobalTimeline timeline;
 
+    if (timeline.c_timeline == NULL)
+    {
+        timeline.c_timeline = _ht_global_timeline_create();
+    }
+
     return timeline.c_timeline;
 }
 
diff --git a/lib/include/hawktracer/global_timeline.h b/lib/include/hawktracer/global_timeline.h
index bb4786e..dd8bc83 100644
--- a/lib/include/hawktracer/global_timeline.h
+++ b/lib/include/hawktracer/global_timeline.h
@@ -10,7 +10,9 @@ HT_DECLS_BEGIN
 /**
  * Gets a Global Timeline for the current thread.
  *
- * @return a pointer to the Global Timeline of the current thread.
+ * @return a pointer to the Global Timeline of the current thread, or NULL if the timeline
+ * can't be created. In that case, tracepoints are ignored, and the next call tries to
+ * create the timeline again.
  */
 HT_API HT_Timeline* ht_global_timeline_get(void);
 
-- 
2.43.0


From b9c5eff133b59f6b2688ac59c98871fb5195ea5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:21 +0000
Subject: [PATCH 38/71] fix: do not ignore the lack of resources when creating
 a TCP listener

---
 lib/listeners/tcp_listener.c | 26 ++++++++++++++---
 lib/tcp_server.cpp           | 55 +++++++++++++++++++++++++++++++++---
 2 files changed, 73 insertions(+), 8 deletions(-)

diff --git a/lib/listeners/tcp_listener.c b/lib/listeners/tcp_listener.c
index a6b116f..8478cc4 100644
--- a/lib/listeners/tcp_listener.c
+++ b/lib/listeners/tcp_listener.c
@@ -81,7 +81,7 @@ ht_tcp_listener_init(HT_TCPListener* listener, int port, size_t buffer_size)
     HT_ErrorCode error_code = ht_listener_buffer_init(&listener->_buffer, buffer_size);
     if (error_code != HT_ERR_OK)
     {
-        return error_code;
+        goto init_buffer_failed;
     }
 
     listener->_last_client_sock_fd = 0;
@@ -89,16 +89,34 @@ ht_tcp_listener_init(HT_TCPListener* listener, int port, size_t buffer_size)
     listener->_client_connected_callback = NULL;
     listener->_client_connected_user_data = NULL;
 
-    // TODO handle if return null
     listener->_push_action_mutex = ht_mutex_create();
+    if (listener->_push_action_mutex == NULL)
+    {
+        error_code = HT_ERR_OUT_OF_MEMORY;
+        goto create_mutex_failed;
+    }
+
     listener->_tcp_server = ht_tcp_server_create();
+    if (listener->_tcp_server == NULL)
+    {
+        error_code = HT_ERR_OUT_OF_MEMORY;
+        goto create_server_failed;
+    }
 
     if (ht_tcp_server_start(listener->_tcp_server, port, ht_tcp_listener_client_connected, listener))
     {
         return HT_ERR_OK;
     }
 
-    return HT_ERR_CANT_START_TCP_SERVER;
+    error_code = HT_ERR_CANT_START_TCP_SERVER;
+    ht_tcp_server_destroy(listener->_tcp_server);
+
+create_server_failed:
+    ht_mutex_destroy(listener->_push_action_mutex);
+create_mutex_failed:
+    ht_listener_buffer_deinit(&listener->_buffer);
+init_buffer_failed:
+    return error_code;
 }
 
 static void
@@ -148,7 +166,7 @@ ht_tcp_listener_create(int port, size_t buffer_size, HT_ErrorCode* out_err)
     HT_ErrorCode error_code = ht_tcp_listener_init(listener, port, buffer_size);
     if (error_code != HT_ERR_OK)
     {
-        ht_tcp_listener_destroy(listener);
+        ht_free(listener);
         listener = NULL;
     }
 
diff --git a/lib/tcp_server.cpp b/lib/tcp_server.cpp
index adcaedc..40c39f4 100644
--- a/lib/tcp_server.cpp
+++ b/lib/tcp_server.cpp
@@ -28,6 +28,7 @@
 #endif
 
 #ifdef HT_THREAD_IMPL_CPP11
+#  include <exception>
 #  include <thread>
 #elif defined(HT_THREAD_IMPL_WIN32)
 #  include <windows.h>
@@ -57,16 +58,40 @@ ht_thread_create(ht_thread_callback_t callback, void* user_data)
 {
     HT_Thread* th = HT_CREATE_TYPE(HT_Thread);
 
+    if (th == NULL)
+    {
+        return NULL;
+    }
+
 #ifdef HT_THREAD_IMPL_CPP11
     new(&th->th) HT_Thread();
-    th->th = std::thread(callback, user_data);
+    try
+    {
+        th->th = std::thread(callback, user_data);
+    }
+    catch (const std::exception&)
+    {
+        th->th.~thread();
+        goto create_thread_failed;
+    }
 #elif defined(HT_THREAD_IMPL_POSIX)
-    pthread_create(&th->th, NULL, callback, user_data);
+    if (pthread_create(&th->th, NULL, callback, user_data) != 0)
+    {
+        goto create_thread_failed;
+    }
 #elif defined(HT_THREAD_IMPL_WIN32)
     th->th = CreateThread(NULL, 0, callback, user_data, 0, NULL);
+    if (th->th == NULL)
+    {
+        goto create_thread_failed;
+    }
 #endif
 
     return th;
+
+create_thread_failed:
+    ht_free(th);
+    return NULL;
 }
 
 static void
@@ -142,9 +167,26 @@ ht_tcp_server_create(void)
 {
     HT_TCPServer* server = HT_CREATE_TYPE(HT_TCPServer);
 
-    ht_bag_int_init(&server->client_sock_fd, 8);
-    server->accept_client_thread = NULL;
+    if (server == NULL)
+    {
+        return NULL;
+    }
+
+    if (ht_bag_int_init(&server->client_sock_fd, 8) != HT_ERR_OK)
+    {
+        ht_free(server);
+        return NULL;
+    }
+
     server->client_mutex = ht_mutex_create();
+    if (server->client_mutex == NULL)
+    {
+        ht_bag_int_deinit(&server->client_sock_fd);
+        ht_free(server);
+        return NULL;
+    }
+
+    server->accept_client_thread = NULL;
     server->server_sock_fd = -1;
     server->client_connected_cb = NULL;
     server->client_connected_ud = NULL;
@@ -212,6 +254,11 @@ ht_tcp_server_start(HT_TCPServer* server, int port, OnClientConnected client_con
     server->client_connected_cb = client_connected_cb;
     server->client_connected_ud = user_data;
     server->accept_client_thread = ht_thread_create(_ht_tcp_server_run, server);
+    if (server->accept_client_thread == NULL)
+    {
+        ht_tcp_server_stop(server);
+        return HT_FALSE;
+    }
 
     return HT_TRUE;
 }
-- 
2.43.0


From 81a24b7aee08dd45d7b6b0da1756a9773d99337e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:56 +0000
Subject: [PATCH 39/71] fix: do not break callgrind output with labels of many
 lines

---
 client/callgrind_converter.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/client/callgrind_converter.cpp b/client/callgrind_converter.cpp
index 6231681..d0d86eb 100644
--- a/client/callgrind_converter.cpp
+++ b/client/callgrind_converter.cpp
@@ -27,6 +27,10 @@ void CallgrindConverter::process_event(const parser::Event& event)
     {
         return;
     }
+
+    // Function name has to be a single line
+    std::replace_if(label.begin(), label.end(), [](char c) { return c == '\n' || c == '\r'; }, ' ');
+
     HT_ThreadId thread_id = event.get_value_or_default<HT_ThreadId>("thread_id", 0u);
     HT_TimestampNs start_ts = event.get_timestamp();
     HT_DurationNs duration = event.get_value_or_default<HT_DurationNs>("duration", 0u);
-- 
2.43.0


From 896bb2f7511c4eab452f0b08341c5ad568b76229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:56 +0000
Subject: [PATCH 40/71] fix: escape strings in the Chrome trace

---
 client/chrome_trace_converter.cpp | 32 ++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/client/chrome_trace_converter.cpp b/client/chrome_trace_converter.cpp
index e5cfb9d..b3980d8 100644
--- a/client/chrome_trace_converter.cpp
+++ b/client/chrome_trace_converter.cpp
@@ -7,6 +7,32 @@ static uint64_t ns_to_ms(uint64_t nano_secs)
     return nano_secs / 1000u;
 }
 
+static std::string escape_json_string(const std::string& str)
+{
+    static const char hex_digits[] = "0123456789abcdef";
+
+    std::string ret;
+    for (char c : str)
+    {
+        if (c == '"' || c == '\\')
+        {
+            ret += '\\';
+            ret += c;
+        }
+        else if ((unsigned char)c < 0x20)
+        {
+            ret += "\\u00";
+            ret += hex_digits[c >> 4];
+            ret += hex_digits[c & 0xf];
+        }
+        else
+        {
+            ret += c;
+        }
+    }
+    return ret;
+}
+
 namespace HawkTracer
 {
 namespace client
@@ -49,7 +75,7 @@ void ChromeTraceConverter::process_event(const parser::Event& event)
 
     // Chrome expects the timestamps/durations to be microseconds
     // so we need to convert from nano to micro
-    _file << "{\"name\": \"" << label
+    _file << "{\"name\": \"" << escape_json_string(label)
          << "\", \"ph\": \"X\", \"ts\": " << ns_to_ms(event.get_timestamp())
          << ", \"dur\": " << ns_to_ms(event.get_value_or_default<HT_DurationNs>("duration", 0u))
          << ", \"pid\": 0, \"tid\": " << event.get_value_or_default<HT_ThreadId>("thread_id", 0u)
@@ -87,7 +113,7 @@ std::string ChromeTraceConverter::_get_args(const parser::Event& event)
         {
             ret += ",";
         }
-        ret += "\"" + value.first + "\": " + _get_json_value(value.second);
+        ret += "\"" + escape_json_string(value.first) + "\": " + _get_json_value(value.second);
     }
     return ret;
 }
@@ -103,7 +129,7 @@ std::string ChromeTraceConverter::_get_json_value(const parser::Event::Value& va
     {
     MKCREFLECT_FOREACH(PRINT_INT_VALUE, 0, INT_TYPE_LIST)
     case parser::FieldTypeId::STRING:
-        return std::string("\"") + value.value.f_STRING + "\"";
+        return "\"" + escape_json_string(value.value.f_STRING) + "\"";
     default:
         return "\"unsupported type\"";
     }
-- 
2.43.0


From 87ce59d2a79f262e7ab0f9bfe83f400db30ad444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:56 +0000
Subject: [PATCH 41/71] fix: find the right caller when it starts at the same
 time as the callee

---
 client/call_graph.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/client/call_graph.cpp b/client/call_graph.cpp
index 2dcc827..ca356cb 100644
--- a/client/call_graph.cpp
+++ b/client/call_graph.cpp
@@ -10,9 +10,12 @@ namespace client
 std::vector<std::pair<std::shared_ptr<CallGraph::TreeNode>, int>> 
     CallGraph::make(std::vector<NodeData>& events)
 {
-    std::sort(events.begin(), events.end(), 
+    // Calls are reported when they finish, so the caller is always after its callees. If they
+    // have started at the same time, the caller has to be added to the graph before the callees.
+    std::reverse(events.begin(), events.end());
+    std::stable_sort(events.begin(), events.end(),
             [](const NodeData& e1, const NodeData& e2){
-                return e1.start_ts < e2.start_ts;
+                return e1.start_ts < e2.start_ts || (e1.start_ts == e2.start_ts && e1.stop_ts > e2.stop_ts);
             });
     for (const auto& event : events)
     {
-- 
2.43.0


From 46bb827e94805946780b421f32dc83ad07a0c306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:18 +0000
Subject: [PATCH 42/71] fix: do not drop tracepoints with an empty label when
 converting a trace

---
 client/callgrind_converter.cpp    | 4 ++--
 client/chrome_trace_converter.cpp | 4 ++--
 client/converter.cpp              | 8 ++++----
 client/converter.hpp              | 2 +-
 4 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/client/callgrind_converter.cpp b/client/callgrind_converter.cpp
index d0d86eb..eb56781 100644
--- a/client/callgrind_converter.cpp
+++ b/client/callgrind_converter.cpp
@@ -21,9 +21,9 @@ bool CallgrindConverter::init(const std::string& file_name)
 
 void CallgrindConverter::process_event(const parser::Event& event)
 {
-    std::string label = _get_label(event);
+    std::string label;
 
-    if (label == "")
+    if (!_get_label(event, label))
     {
         return;
     }
diff --git a/client/chrome_trace_converter.cpp b/client/chrome_trace_converter.cpp
index b3980d8..1e5dc72 100644
--- a/client/chrome_trace_converter.cpp
+++ b/client/chrome_trace_converter.cpp
@@ -57,9 +57,9 @@ bool ChromeTraceConverter::init(const std::string& file_name)
 
 void ChromeTraceConverter::process_event(const parser::Event& event)
 {
-    std::string label = _get_label(event);
+    std::string label;
 
-    if (label == "")
+    if (!_get_label(event, label))
     {
         return;
     }
diff --git a/client/converter.cpp b/client/converter.cpp
index 0013daa..e88392b 100644
--- a/client/converter.cpp
+++ b/client/converter.cpp
@@ -56,10 +56,8 @@ std::string Converter::_convert_value_to_string(const parser::Event::Value& valu
     }
 }
 
-std::string Converter::_get_label(const parser::Event& event)
+bool Converter::_get_label(const parser::Event& event, std::string& label)
 {
-    std::string label;
-
     if (_mapping_klass_id == 0)
     {
         _try_setting_mapping_klass_id(event);
@@ -71,12 +69,14 @@ std::string Converter::_get_label(const parser::Event& event)
     else if (event.has_value("label"))
     {
         label = _convert_value_to_string(event.get_raw_value("label")); 
+        return true;
     }
     else if (event.has_value("name"))
     {
         label = event.get_value<char*>("name");
+        return true;
     }
-    return label;
+    return false;
 }
 
 } // namespace client
diff --git a/client/converter.hpp b/client/converter.hpp
index b99ed23..50e50c8 100644
--- a/client/converter.hpp
+++ b/client/converter.hpp
@@ -24,7 +24,7 @@ public:
     virtual void stop() = 0;
 
 protected:
-    std::string _get_label(const parser::Event& event);
+    bool _get_label(const parser::Event& event, std::string& label);
     std::unique_ptr<TracepointMap> _tracepoint_map;
 
 private:
-- 
2.43.0


From f1707819d76debcf8f02e651290e12acd57274a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:01 +0000
Subject: [PATCH 43/71] fix: support output paths longer than 127 characters in
 the client

---
 client/main.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/client/main.cpp b/client/main.cpp
index 0e2c764..a5966a0 100644
--- a/client/main.cpp
+++ b/client/main.cpp
@@ -7,7 +7,10 @@
 #include <hawktracer/client_utils/command_line_parser.hpp>
 #include <hawktracer/client_utils/stream_factory.hpp>
 #include <iostream>
+#include <ctime>
 #include <map>
+#include <string>
+#include <vector>
 
 using namespace HawkTracer;
 using ClientUtils::CommandLineParser;
@@ -17,10 +20,18 @@ std::string create_output_path(const char* path)
     time_t rawtime;
     time(&rawtime);
     struct tm* time_info = localtime (&rawtime);
-    char file_name_buffer[128];
-    strftime(file_name_buffer, 128, path, time_info);
 
-    return file_name_buffer;
+    // Extra character makes sure that the result is never empty, so
+    // 0 always means that the buffer is too small.
+    const std::string format = std::string(path) + " ";
+    std::vector<char> file_name_buffer(format.size() + 128);
+    size_t length;
+    while ((length = strftime(file_name_buffer.data(), file_name_buffer.size(), format.c_str(), time_info)) == 0)
+    {
+        file_name_buffer.resize(file_name_buffer.size() * 2);
+    }
+
+    return std::string(file_name_buffer.data(), length - 1);
 }
 
 std::string supported_formats(std::map<std::string, std::unique_ptr<client::Converter>>& formats)
-- 
2.43.0


From 6b5de82e30b53684b5ffe7c0cb7d99d44f9d9887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:43 +0000
Subject: [PATCH 44/71] fix: report failures of writing the output in the
 client

---
 client/callgrind_converter.cpp    | 7 ++++++-
 client/callgrind_converter.hpp    | 2 +-
 client/chrome_trace_converter.cpp | 4 +++-
 client/chrome_trace_converter.hpp | 2 +-
 client/converter.hpp              | 2 +-
 client/main.cpp                   | 7 ++++++-
 6 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/client/callgrind_converter.cpp b/client/callgrind_converter.cpp
index eb56781..86068d8 100644
--- a/client/callgrind_converter.cpp
+++ b/client/callgrind_converter.cpp
@@ -59,8 +59,10 @@ void CallgrindConverter::_print_function(std::ofstream& file, std::shared_ptr<Ca
     }
 }
 
-void CallgrindConverter::stop()
+bool CallgrindConverter::stop()
 {
+    bool success = true;
+
     for (auto& thread : _events)
     {
         CallGraph _call_graph;
@@ -83,7 +85,10 @@ void CallgrindConverter::stop()
             std::cerr << "Can't open file: " << thread_file_name << std::endl;
         }
         thread_output_file.close();
+        success = success && thread_output_file.good();
     }
+
+    return success;
 }
 
 } // namespace client
diff --git a/client/callgrind_converter.hpp b/client/callgrind_converter.hpp
index 759d83e..3c37905 100644
--- a/client/callgrind_converter.hpp
+++ b/client/callgrind_converter.hpp
@@ -20,7 +20,7 @@ public:
 
     bool init(const std::string& file_name) override;
     void process_event(const parser::Event& event) override;
-    void stop() override;
+    bool stop() override;
 
 private:
     const std::string _callgrind_header = "# callgrind format";
diff --git a/client/chrome_trace_converter.cpp b/client/chrome_trace_converter.cpp
index 1e5dc72..1561fb1 100644
--- a/client/chrome_trace_converter.cpp
+++ b/client/chrome_trace_converter.cpp
@@ -83,13 +83,15 @@ void ChromeTraceConverter::process_event(const parser::Event& event)
          << "}";
 }
 
-void ChromeTraceConverter::stop()
+bool ChromeTraceConverter::stop()
 {
     if (_file.is_open())
     {
         _file << "]}";
         _file.close();
     }
+
+    return _file.good();
 }
 
 std::string ChromeTraceConverter::_get_args(const parser::Event& event)
diff --git a/client/chrome_trace_converter.hpp b/client/chrome_trace_converter.hpp
index 4672119..7a3e6b6 100644
--- a/client/chrome_trace_converter.hpp
+++ b/client/chrome_trace_converter.hpp
@@ -19,7 +19,7 @@ public:
 
     bool init(const std::string& file_name) override;
     void process_event(const parser::Event& event) override;
-    void stop() override;
+    bool stop() override;
 
 private:
     static std::string _get_args(const parser::Event& event);
diff --git a/client/converter.hpp b/client/converter.hpp
index 50e50c8..8135283 100644
--- a/client/converter.hpp
+++ b/client/converter.hpp
@@ -21,7 +21,7 @@ public:
     virtual bool init(const std::string& file_name) = 0;
     virtual void process_event(const parser::Event& event) = 0;
     bool set_tracepoint_map(const std::string& map_files);
-    virtual void stop() = 0;
+    virtual bool stop() = 0;
 
 protected:
     bool _get_label(const parser::Event& event, std::string& label);
diff --git a/client/main.cpp b/client/main.cpp
index a5966a0..1d54679 100644
--- a/client/main.cpp
+++ b/client/main.cpp
@@ -136,7 +136,12 @@ int main(int argc, char** argv)
 
     reader.wait_for_complete();
     reader.stop();
-    converter->second->stop();
+
+    if (!converter->second->stop())
+    {
+        std::cerr << "Error on writing the output!!!" << std::endl;
+        return 1;
+    }
 
     return 0;
 }
-- 
2.43.0


From e9eed5b43505faf7a83e416ea3b97022225ce8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:55 +0000
Subject: [PATCH 45/71] fix: do not leak values of events which can't be read
 or have ambiguous names

---
 parser/event.cpp           | 36 +++++++++++++++++++++---------------
 parser/protocol_reader.cpp |  6 +++++-
 2 files changed, 26 insertions(+), 16 deletions(-)

diff --git a/parser/event.cpp b/parser/event.cpp
index 7e9dd12..9a9f898 100644
--- a/parser/event.cpp
+++ b/parser/event.cpp
@@ -70,25 +70,28 @@ void Event::Value::_swap(Value& other)
     std::swap(value, other.value);
 }
 
+static void free_value(const EventKlassField& field, const FieldType& value)
+{
+    switch (field.get_type_id())
+    {
+    case FieldTypeId::STRING:
+        free(value.f_STRING);
+        break;
+    case FieldTypeId::STRUCT:
+        delete value.f_EVENT;
+        break;
+    default:
+        break;
+    }
+}
+
 Event::~Event()
 {
     for (const auto& value : _values)
     {
-        if (value.second.field == nullptr)
+        if (value.second.field != nullptr)
         {
-            continue;
-        }
-
-        switch (value.second.field->get_type_id())
-        {
-        case FieldTypeId::STRING:
-            free(value.second.value.f_STRING);
-            break;
-        case FieldTypeId::STRUCT:
-            delete value.second.value.f_EVENT;
-            break;
-        default:
-            break;
+            free_value(*value.second.field, value.second.value);
         }
     }
 }
@@ -114,7 +117,10 @@ void Event::merge(Event event)
 
 void Event::set_value(const EventKlassField* field, FieldType value)
 {
-    _values.insert(std::make_pair(field->get_name(), Value(std::move(value), field)));
+    if (!_values.insert(std::make_pair(field->get_name(), Value(value, field))).second)
+    {
+        free_value(*field, value);
+    }
 
     if (field->get_name() == "timestamp")
     {
diff --git a/parser/protocol_reader.cpp b/parser/protocol_reader.cpp
index 4cde93c..cc3bba6 100644
--- a/parser/protocol_reader.cpp
+++ b/parser/protocol_reader.cpp
@@ -259,6 +259,10 @@ bool ProtocolReader::_read_struct(FieldType& value, const EventKlassField& field
         Event sub_event(std::move(klass));
         _read_event(is_error, sub_event, base_event);
         --_struct_depth;
+        if (is_error)
+        {
+            return false;
+        }
         if (_flat_events)
         {
             event->merge(std::move(sub_event));
@@ -267,7 +271,7 @@ bool ProtocolReader::_read_struct(FieldType& value, const EventKlassField& field
         {
             value.f_EVENT = new Event(std::move(sub_event));
         }
-        return !is_error;
+        return true;
     }
 }
 
-- 
2.43.0


From e2db1aef0a3625f8b5b1f26fe99b98f83b874a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:55 +0000
Subject: [PATCH 46/71] fix: keep the base event valid if it's used by many
 fields of an event

---
 parser/protocol_reader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/protocol_reader.cpp b/parser/protocol_reader.cpp
index cc3bba6..6530f2c 100644
--- a/parser/protocol_reader.cpp
+++ b/parser/protocol_reader.cpp
@@ -242,7 +242,7 @@ bool ProtocolReader::_read_struct(FieldType& value, const EventKlassField& field
         if (!_flat_events)
         {
             assert(base_event != nullptr);
-            value.f_EVENT = new Event(std::move(*base_event));
+            value.f_EVENT = new Event(*base_event);
         }
         return true;
     }
-- 
2.43.0


From a11b68f84506ed0d2cfb8a88b926d1423d3298bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:55 +0000
Subject: [PATCH 47/71] fix: refuse recursive event klasses and limit the
 number of structures in an event

---
 .../hawktracer/parser/protocol_reader.hpp     |  1 +
 parser/klass_register.cpp                     | 30 +++++++++++++++++++
 parser/protocol_reader.cpp                    |  5 +++-
 3 files changed, 35 insertions(+), 1 deletion(-)

diff --git a/parser/include/hawktracer/parser/protocol_reader.hpp b/parser/include/hawktracer/parser/protocol_reader.hpp
index 75d13ce..724fccb 100644
--- a/parser/include/hawktracer/parser/protocol_reader.hpp
+++ b/parser/include/hawktracer/parser/protocol_reader.hpp
@@ -51,6 +51,7 @@ private:
     bool _flat_events;
     bool _is_stream_corrupted = false;
     unsigned _struct_depth = 0;
+    unsigned _struct_count = 0;
     HT_Endianness _endianness = HT_ENDIANNESS_LITTLE;
 };
 
diff --git a/parser/klass_register.cpp b/parser/klass_register.cpp
index c5430a1..a399f8e 100644
--- a/parser/klass_register.cpp
+++ b/parser/klass_register.cpp
@@ -2,9 +2,34 @@
 #include "hawktracer/parser/event.hpp"
 #include "hawktracer/parser/make_unique.hpp"
 
+#include <set>
+#include <stdexcept>
+
 namespace HawkTracer {
 namespace parser {
 
+static bool contains_klass(const EventKlass& klass, HT_EventKlassId klass_id, std::set<const EventKlass*>& visited)
+{
+    if (klass.get_id() == klass_id)
+    {
+        return true;
+    }
+    if (!visited.insert(&klass).second)
+    {
+        return false;
+    }
+    for (const auto& field : klass.get_fields())
+    {
+        auto field_klass = field->get_klass();
+        if (field_klass && contains_klass(*field_klass, klass_id, visited))
+        {
+            return true;
+        }
+    }
+
+    return false;
+}
+
 KlassRegister::KlassRegister()
 {
     auto base_event = make_unique<EventKlass>("HT_Event", to_underlying(WellKnownKlasses::EventKlass));
@@ -65,7 +90,12 @@ void KlassRegister::handle_register_events(const Event& event)
             std::shared_ptr<const EventKlass> type_klass;
             if (type == HT_MKCREFLECT_TYPES_EXT_STRUCT)
             {
+                std::set<const EventKlass*> visited;
                 type_klass = get_klass(field_type);
+                if (type_klass && contains_klass(*type_klass, klass_id, visited))
+                {
+                    throw std::runtime_error("event klass contains itself");
+                }
             }
 
             auto field = HawkTracer::parser::make_unique<EventKlassField>(
diff --git a/parser/protocol_reader.cpp b/parser/protocol_reader.cpp
index 6530f2c..f5b3deb 100644
--- a/parser/protocol_reader.cpp
+++ b/parser/protocol_reader.cpp
@@ -13,6 +13,7 @@ namespace parser
 {
 
 static const unsigned MAX_STRUCT_DEPTH = 64;
+static const unsigned MAX_STRUCTS_IN_EVENT = 256;
 
 ProtocolReader::ProtocolReader(KlassRegister* klass_register, std::unique_ptr<Stream> stream, bool flat_events) :
     _klass_register(klass_register),
@@ -103,6 +104,7 @@ void ProtocolReader::_read_events()
         }
 
         Event event(std::move(klass));
+        _struct_count = 0;
         if (_flat_events)
         {
             _read_event(is_error, event, nullptr);
@@ -250,12 +252,13 @@ bool ProtocolReader::_read_struct(FieldType& value, const EventKlassField& field
     {
         bool is_error = true;
         auto klass = _klass_register->get_klass(field.get_type_name());
-        if (!klass || _struct_depth == MAX_STRUCT_DEPTH)
+        if (!klass || _struct_depth == MAX_STRUCT_DEPTH || _struct_count == MAX_STRUCTS_IN_EVENT)
         {
             return false;
         }
 
         ++_struct_depth;
+        ++_struct_count;
         Event sub_event(std::move(klass));
         _read_event(is_error, sub_event, base_event);
         --_struct_depth;
-- 
2.43.0


From 23d0a4c05d7ece2bf5f16fac70d2f5a81dd5095f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:29 +0000
Subject: [PATCH 48/71] fix: check types of event fields before converting a
 trace

---
 client/converter.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/client/converter.cpp b/client/converter.cpp
index e88392b..0a1c00a 100644
--- a/client/converter.cpp
+++ b/client/converter.cpp
@@ -13,6 +13,11 @@ namespace HawkTracer
 namespace client
 {
 
+static bool has_value_of_type(const parser::Event& event, const std::string& key, parser::FieldTypeId type_id)
+{
+    return event.has_value(key) && event.get_raw_value(key).field->get_type_id() == type_id;
+}
+
 Converter::Converter() :
     _tracepoint_map(HawkTracer::parser::make_unique<TracepointMap>()),
     _mapping_klass_name("HT_StringMappingEvent")
@@ -64,14 +69,18 @@ bool Converter::_get_label(const parser::Event& event, std::string& label)
     }
     else if (event.get_klass()->get_id() == _mapping_klass_id)
     {
-        _tracepoint_map->add_map_entry(event.get_value<uint64_t>("identifier"), event.get_value<char*>("label"));
+        if (has_value_of_type(event, "identifier", parser::FieldTypeId::UINT64) &&
+                has_value_of_type(event, "label", parser::FieldTypeId::STRING))
+        {
+            _tracepoint_map->add_map_entry(event.get_value<uint64_t>("identifier"), event.get_value<char*>("label"));
+        }
     } 
     else if (event.has_value("label"))
     {
         label = _convert_value_to_string(event.get_raw_value("label")); 
         return true;
     }
-    else if (event.has_value("name"))
+    else if (has_value_of_type(event, "name", parser::FieldTypeId::STRING))
     {
         label = event.get_value<char*>("name");
         return true;
-- 
2.43.0


From b536f35521077807d843120e2a4aec5402f6748a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:02 +0000
Subject: [PATCH 49/71] fix: report errors of reading usage of CPU and memory
 and never divide by zero

---
 lib/platform/linux/cpu_usage.c    | 26 +++++++++++++++++++++++---
 lib/platform/linux/memory_usage.c |  3 ++-
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/lib/platform/linux/cpu_usage.c b/lib/platform/linux/cpu_usage.c
index 473fddc..3ee5e46 100644
--- a/lib/platform/linux/cpu_usage.c
+++ b/lib/platform/linux/cpu_usage.c
@@ -44,17 +44,24 @@ _get_process_time(unsigned long* total_time, int pid)
     }
 
     size_t num = fread(buf, 1, sizeof(buf) - 1, fp);
+    int read_error = ferror(fp);
     fclose(fp);
 
-    if (num < 80)
+    if (read_error || num < 80)
     {
         return HT_FALSE;
     }
     buf[num] = '\0';
 
+    const char* comm_end = strrchr(buf, ')');
+    if (comm_end == NULL)
+    {
+        return HT_FALSE;
+    }
+
     /* Read stat file: http://man7.org/linux/man-pages/man5/proc.5.html */
-    int ret = sscanf(strrchr(buf, ')') + 2, /* pid (comm) */
-           "%c " /* state */
+    int ret = sscanf(comm_end + 1, /* pid (comm) */
+           " %c " /* state */
            "%d %d %d %d %d " /* ppid pgrp session tty_nr tpgid */
            "%u " /* flags */
            "%lu %lu %lu %lu " /* minflt cminflt majflt cmajflt  */
@@ -99,6 +106,7 @@ ht_cpu_usage_context_create(void* process_id)
     context->last_probe = 0;
     context->pid = process_id == NULL ? getpid() : *(int*)process_id;
     context->last_total_time = 0;
+    context->value = 0.0f;
 
     ht_cpu_usage_get_percentage(context);
     context->value = 0.0f;
@@ -125,6 +133,18 @@ ht_cpu_usage_get_percentage(HT_CPUUsageContext* context)
         return -1.0f;
     }
 
+    if (total_time < context->last_total_time)
+    {
+        /* It's not the same process any more */
+        context->last_total_time = total_time;
+        context->last_probe = current_ts;
+        return -1.0f;
+    }
+    if (current_ts <= context->last_probe)
+    {
+        return context->value;
+    }
+
     tics = total_time - context->last_total_time;
     elapsed = (current_ts - context->last_probe) / 1000000000.0f;
 
diff --git a/lib/platform/linux/memory_usage.c b/lib/platform/linux/memory_usage.c
index 617c8a9..4193e1f 100644
--- a/lib/platform/linux/memory_usage.c
+++ b/lib/platform/linux/memory_usage.c
@@ -60,9 +60,10 @@ ht_memory_usage_get_usage(HT_MemoryUsageContext* context,
     }
 
     size_t num = fread(buf, 1, sizeof(buf) - 1, fp);
+    int read_error = ferror(fp);
     fclose(fp);
 
-    if (num < 16)
+    if (read_error)
     {
         return HT_ERR_INVALID_FORMAT;
     }
-- 
2.43.0


From 4d010721deb9d4c1e4bad1d7ef78c0f52f4e8d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:06 +0000
Subject: [PATCH 50/71] fix: pass keyword arguments to functions traced from
 Python

A decorated function raised TypeError when it was called with keyword
arguments, because the wrapper was registered as METH_VARARGS only.
---
 bindings/python3/hawktracer_core_python.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/bindings/python3/hawktracer_core_python.cpp b/bindings/python3/hawktracer_core_python.cpp
index 36ced90..49ed118 100644
--- a/bindings/python3/hawktracer_core_python.cpp
+++ b/bindings/python3/hawktracer_core_python.cpp
@@ -9,9 +9,11 @@ static HT_Boolean is_initialized = HT_FALSE;
 static PyObject* tracepoint_map = NULL;
 
 static PyObject*
-ht_python_core_trace_function(PyObject* function, PyObject *args);
+ht_python_core_trace_function(PyObject* function, PyObject *args, PyObject *kwargs);
 
-static PyMethodDef ht_python_core_trace_function_md = {"trace_function", ht_python_core_trace_function, METH_VARARGS, ""};
+static PyMethodDef ht_python_core_trace_function_md = {
+    "trace_function", (PyCFunction)(void(*)(void))ht_python_core_trace_function, METH_VARARGS | METH_KEYWORDS, ""
+};
 
 static uintptr_t
 ht_python_core_get_label_address(PyObject* function_name_attr)
@@ -35,7 +37,7 @@ ht_python_core_get_label_address(PyObject* function_name_attr)
 }
 
 static PyObject*
-ht_python_core_trace_function(PyObject* function, PyObject *args)
+ht_python_core_trace_function(PyObject* function, PyObject *args, PyObject *kwargs)
 {
     uintptr_t address = 0;
 
@@ -56,7 +58,7 @@ ht_python_core_trace_function(PyObject* function, PyObject *args)
         }
     }
 
-    PyObject* ret = PyEval_CallObject(function, args);
+    PyObject* ret = PyObject_Call(function, args, kwargs);
 
     if (address)
     {
-- 
2.43.0


From 5f36d37be7221c54475cf17fec798691512b75c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:02 +0000
Subject: [PATCH 51/71] fix: complete the trace file when the Python
 interpreter exits

The buffered events were written only in the module's m_clear, which the
interpreter doesn't call at exit (single-phase modules stay referenced), so
the trace of a Python program lost its last events - for a short program,
all of them. m_clear also dropped a reference to the module that it doesn't
own, and left the tracepoint map dangling.
---
 bindings/python3/hawktracer_core_python.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/bindings/python3/hawktracer_core_python.cpp b/bindings/python3/hawktracer_core_python.cpp
index 49ed118..1b4832c 100644
--- a/bindings/python3/hawktracer_core_python.cpp
+++ b/bindings/python3/hawktracer_core_python.cpp
@@ -124,24 +124,32 @@ ht_python_core_disable_tracing(PyObject* Py_UNUSED(self), PyObject* Py_UNUSED(ig
     Py_RETURN_NONE;
 }
 
-static int
-ht_python_core_clear_module(PyObject* m)
+static void
+ht_python_core_shutdown(void)
 {
     if (is_initialized)
     {
+        is_initialized = HT_FALSE;
+        tracing_enabled = HT_FALSE;
+
         ht_timeline_flush(ht_global_timeline_get());
 
         if (file_listener)
         {
             ht_file_dump_listener_stop(file_listener);
+            file_listener = NULL;
         }
 
         ht_deinit();
     }
+}
 
-    Py_DECREF(tracepoint_map);
+static int
+ht_python_core_clear_module(PyObject* Py_UNUSED(m))
+{
+    ht_python_core_shutdown();
+    Py_CLEAR(tracepoint_map);
 
-    Py_CLEAR(m);
     return 0;
 }
 
@@ -258,6 +266,9 @@ PyInit_core(void)
         }
 
         tracepoint_map = PyDict_New();
+
+        /* The interpreter doesn't necessarily clear the module when it exits. */
+        Py_AtExit(ht_python_core_shutdown);
     }
 
     return module;
-- 
2.43.0


From ef0b787d6550651875bde012faa16547d45e6efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:22 +0000
Subject: [PATCH 52/71] fix: make the name of a Python function reach listeners
 before its label is used

The mapping stayed in the buffer of the thread that created it, while other
threads already recorded (and flushed) calls carrying the label, so a reader
met labels it had no name for yet.
---
 bindings/python3/hawktracer_core_python.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bindings/python3/hawktracer_core_python.cpp b/bindings/python3/hawktracer_core_python.cpp
index 1b4832c..3af2391 100644
--- a/bindings/python3/hawktracer_core_python.cpp
+++ b/bindings/python3/hawktracer_core_python.cpp
@@ -27,6 +27,8 @@ ht_python_core_get_label_address(PyObject* function_name_attr)
         PyObject* function_name = PyUnicode_AsEncodedString(function_name_attr, "UTF-8", "strict");
         HT_TIMELINE_PUSH_EVENT(ht_global_timeline_get(), HT_StringMappingEvent, address, PyBytes_AsString(function_name));
         Py_DECREF(function_name);
+        /* Other threads can use the label from now on, so the mapping must reach listeners before their events. */
+        ht_timeline_flush(ht_global_timeline_get());
 
         return address;
     }
-- 
2.43.0


From fe59e4d7bc4293ba21421bc62533829b882850e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:20 +0000
Subject: [PATCH 53/71] fix: call functions without a usable name when tracing
 from Python

A callable without __name__ (e.g. functools.partial) was called with the
AttributeError still pending, which made the call fail with SystemError; a
__name__ that isn't a string or can't be encoded crashed the interpreter.
Such functions are called without being recorded now. The label put into the
tracepoint map was leaked, too.
---
 bindings/python3/hawktracer_core_python.cpp | 50 +++++++++++++++------
 1 file changed, 36 insertions(+), 14 deletions(-)

diff --git a/bindings/python3/hawktracer_core_python.cpp b/bindings/python3/hawktracer_core_python.cpp
index 3af2391..a801cb0 100644
--- a/bindings/python3/hawktracer_core_python.cpp
+++ b/bindings/python3/hawktracer_core_python.cpp
@@ -15,27 +15,40 @@ static PyMethodDef ht_python_core_trace_function_md = {
     "trace_function", (PyCFunction)(void(*)(void))ht_python_core_trace_function, METH_VARARGS | METH_KEYWORDS, ""
 };
 
+/* Returns 0 if the attribute can't be used as a label (e.g. it's not a string); a Python exception might be set then. */
 static uintptr_t
 ht_python_core_get_label_address(PyObject* function_name_attr)
 {
-    if (!PyDict_Contains(tracepoint_map, function_name_attr))
+    uintptr_t address = 0;
+
+    if (!PyUnicode_Check(function_name_attr))
     {
-        /* TODO: improve cached string feature so it can handle custom pointers.
-        Then we can simply push all the mapping to a listener if it's registered too late. */
-        uintptr_t address = (uintptr_t)function_name_attr;
-        PyDict_SetItem(tracepoint_map, function_name_attr, PyLong_FromSize_t(address));
-        PyObject* function_name = PyUnicode_AsEncodedString(function_name_attr, "UTF-8", "strict");
-        HT_TIMELINE_PUSH_EVENT(ht_global_timeline_get(), HT_StringMappingEvent, address, PyBytes_AsString(function_name));
-        Py_DECREF(function_name);
-        /* Other threads can use the label from now on, so the mapping must reach listeners before their events. */
-        ht_timeline_flush(ht_global_timeline_get());
+        return 0;
+    }
 
-        return address;
+    PyObject* label = PyDict_GetItemWithError(tracepoint_map, function_name_attr);
+    if (label)
+    {
+        return PyLong_AsSize_t(label);
     }
-    else
+
+    /* TODO: improve cached string feature so it can handle custom pointers.
+    Then we can simply push all the mapping to a listener if it's registered too late. */
+    label = PyLong_FromSize_t((uintptr_t)function_name_attr);
+    PyObject* function_name = PyUnicode_AsEncodedString(function_name_attr, "UTF-8", "strict");
+
+    if (label && function_name && PyDict_SetItem(tracepoint_map, function_name_attr, label) == 0)
     {
-        return PyLong_AsSize_t(PyDict_GetItem(tracepoint_map, function_name_attr));
+        address = (uintptr_t)function_name_attr;
+        HT_TIMELINE_PUSH_EVENT(ht_global_timeline_get(), HT_StringMappingEvent, address, PyBytes_AsString(function_name));
+        /* Other threads can use the label from now on, so the mapping must reach listeners before their events. */
+        ht_timeline_flush(ht_global_timeline_get());
     }
+
+    Py_XDECREF(function_name);
+    Py_XDECREF(label);
+
+    return address;
 }
 
 static PyObject*
@@ -55,9 +68,18 @@ ht_python_core_trace_function(PyObject* function, PyObject *args, PyObject *kwar
         if (function_name_attr)
         {
             address = ht_python_core_get_label_address(function_name_attr);
-            ht_feature_callstack_start_int(ht_global_timeline_get(), address);
+            if (address)
+            {
+                ht_feature_callstack_start_int(ht_global_timeline_get(), address);
+            }
             Py_DECREF(function_name_attr);
         }
+
+        if (!address)
+        {
+            /* The function doesn't have a name that can be recorded */
+            PyErr_Clear();
+        }
     }
 
     PyObject* ret = PyObject_Call(function, args, kwargs);
-- 
2.43.0


From 475d5aa28159be369b110ea1bff76af149c62a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:51 +0000
Subject: [PATCH 54/71] fix: raise an exception when a Python client which is
 not started is used

---
 bindings/python3/hawktracer_client_python.cpp | 43 +++++++++++++++++--
 1 file changed, 39 insertions(+), 4 deletions(-)

diff --git a/bindings/python3/hawktracer_client_python.cpp b/bindings/python3/hawktracer_client_python.cpp
index f72eb00..24be6fd 100644
--- a/bindings/python3/hawktracer_client_python.cpp
+++ b/bindings/python3/hawktracer_client_python.cpp
@@ -33,6 +33,17 @@ client_new(PyTypeObject *type, PyObject *args, PyObject *kwds)
     return reinterpret_cast<PyObject*>(self);
 }
 
+static Context*
+client_get_context(HT_Python_Client* self)
+{
+    if (!self->context)
+    {
+        PyErr_SetString(PyExc_RuntimeError, "client is not started");
+    }
+
+    return self->context;
+}
+
 static PyObject *
 client_start(HT_Python_Client* self, PyObject* args)
 {
@@ -69,22 +80,40 @@ client_start(HT_Python_Client* self, PyObject* args)
 static PyObject *
 client_stop(HT_Python_Client* self, PyObject *Py_UNUSED(ignored))
 {
-    self->context->stop();
+    Context* context = client_get_context(self);
+    if (!context)
+    {
+        return nullptr;
+    }
+
+    context->stop();
     Py_RETURN_NONE;
 }
 
 static PyObject *
 client_poll_event(HT_Python_Client* self, PyObject *Py_UNUSED(ignored))
 {
-    return self->context->poll_event();
+    Context* context = client_get_context(self);
+    if (!context)
+    {
+        return nullptr;
+    }
+
+    return context->poll_event();
 }
 
 static PyObject *
 client_wait_for_eos(HT_Python_Client* self, PyObject *Py_UNUSED(ignored))
 {
+    Context* context = client_get_context(self);
+    if (!context)
+    {
+        return nullptr;
+    }
+
     Py_BEGIN_ALLOW_THREADS
 
-    self->context->wait_for_complete();
+    context->wait_for_complete();
 
     Py_END_ALLOW_THREADS
     Py_RETURN_NONE;
@@ -93,7 +122,13 @@ client_wait_for_eos(HT_Python_Client* self, PyObject *Py_UNUSED(ignored))
 static PyObject *
 client_eos(HT_Python_Client* self, PyObject *Py_UNUSED(ignored))
 {
-    return PyBool_FromLong(self->context->eos());
+    Context* context = client_get_context(self);
+    if (!context)
+    {
+        return nullptr;
+    }
+
+    return PyBool_FromLong(context->eos());
 }
 
 static void
-- 
2.43.0


From caae04562bb99a3befdfd980bf74e08622347d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:51 +0000
Subject: [PATCH 55/71] fix: hold the GIL while creating an event for a Python
 callback

---
 bindings/python3/client_context.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python3/client_context.cpp b/bindings/python3/client_context.cpp
index e0e8c84..c89162a 100644
--- a/bindings/python3/client_context.cpp
+++ b/bindings/python3/client_context.cpp
@@ -86,9 +86,9 @@ PyObject* Context::poll_event()
 
 void Context::_trigger_callback(const parser::Event& event)
 {
-    PyObject* arglist = Py_BuildValue("(sO)", event.get_klass()->get_name().c_str(), event_to_dictionary(event));
     PyGILState_STATE gstate = PyGILState_Ensure();
 
+    PyObject* arglist = Py_BuildValue("(sO)", event.get_klass()->get_name().c_str(), event_to_dictionary(event));
     PyObject* result = PyEval_CallObject(_on_new_event, arglist);
     Py_DECREF(arglist);
 
-- 
2.43.0


From db2eb6f0ee95730e7d6c72161e3a3376b14da89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:16 +0000
Subject: [PATCH 56/71] fix: keep sign of integers in Python events

---
 bindings/python3/client_context.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/bindings/python3/client_context.cpp b/bindings/python3/client_context.cpp
index c89162a..d2da0e6 100644
--- a/bindings/python3/client_context.cpp
+++ b/bindings/python3/client_context.cpp
@@ -8,9 +8,9 @@ namespace Python
 
 static PyObject* event_to_dictionary(const parser::Event& event)
 {
-#define CREATE_INT_TYPE(HAWKTRACER_TYPE, C_TYPE) \
+#define CREATE_INT_TYPE(HAWKTRACER_TYPE, PY_CREATE_FUNCTION) \
     case parser::FieldTypeId::HAWKTRACER_TYPE: \
-    val = PyLong_FromUnsignedLongLong((C_TYPE)p.second.value.f_##HAWKTRACER_TYPE); \
+    val = PY_CREATE_FUNCTION(p.second.value.f_##HAWKTRACER_TYPE); \
     break;
 
     PyObject* dict = PyDict_New();
@@ -20,9 +20,12 @@ static PyObject* event_to_dictionary(const parser::Event& event)
         PyObject* val = nullptr;
         switch (p.second.field->get_type_id())
         {
-        MKCREFLECT_FOREACH(CREATE_INT_TYPE, uint64_t, UINT8, UINT16, UINT32, UINT64, POINTER)
-        MKCREFLECT_FOREACH(CREATE_INT_TYPE, int64_t, INT8, INT16, INT32, INT64)
+        MKCREFLECT_FOREACH(CREATE_INT_TYPE, PyLong_FromUnsignedLongLong, UINT8, UINT16, UINT32, UINT64)
+        MKCREFLECT_FOREACH(CREATE_INT_TYPE, PyLong_FromLongLong, INT8, INT16, INT32, INT64)
 #undef CREATE_INT_TYPE
+        case parser::FieldTypeId::POINTER:
+            val = PyLong_FromVoidPtr(p.second.value.f_POINTER);
+            break;
         case parser::FieldTypeId::STRING:
             val = PyUnicode_FromString(p.second.value.f_STRING);
             break;
-- 
2.43.0


From fb0813a7fb992e81b8e52d1e8c5fa08389853fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:29 +0000
Subject: [PATCH 57/71] fix: do not leak Python objects of every event received
 by a client

---
 bindings/python3/client_context.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bindings/python3/client_context.cpp b/bindings/python3/client_context.cpp
index d2da0e6..42dad4b 100644
--- a/bindings/python3/client_context.cpp
+++ b/bindings/python3/client_context.cpp
@@ -38,7 +38,8 @@ static PyObject* event_to_dictionary(const parser::Event& event)
             continue;
         }
 
-        PyDict_SetItem(dict, PyUnicode_FromString(p.first.c_str()), val);
+        PyDict_SetItemString(dict, p.first.c_str(), val);
+        Py_DECREF(val);
     }
 
     return dict;
@@ -84,14 +85,14 @@ PyObject* Context::poll_event()
     parser::Event evt = _events.front();
     PyObject* py_event = event_to_dictionary(evt);
     _events.pop();
-    return Py_BuildValue("sO", evt.get_klass()->get_name().c_str(), py_event);
+    return Py_BuildValue("sN", evt.get_klass()->get_name().c_str(), py_event);
 }
 
 void Context::_trigger_callback(const parser::Event& event)
 {
     PyGILState_STATE gstate = PyGILState_Ensure();
 
-    PyObject* arglist = Py_BuildValue("(sO)", event.get_klass()->get_name().c_str(), event_to_dictionary(event));
+    PyObject* arglist = Py_BuildValue("(sN)", event.get_klass()->get_name().c_str(), event_to_dictionary(event));
     PyObject* result = PyEval_CallObject(_on_new_event, arglist);
     Py_DECREF(arglist);
 
-- 
2.43.0


From 74763648c52374f49681052de7ac1488564ecfb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:53 +0000
Subject: [PATCH 58/71] fix: raise an exception if a Python client can't be
 started

---
 bindings/python3/client_context.hpp           | 2 +-
 bindings/python3/hawktracer_client_python.cpp | 8 +++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/bindings/python3/client_context.hpp b/bindings/python3/client_context.hpp
index d823caf..91440a1 100644
--- a/bindings/python3/client_context.hpp
+++ b/bindings/python3/client_context.hpp
@@ -21,7 +21,7 @@ public:
     Context(std::unique_ptr<parser::Stream> stream, PyObject* on_new_event);
     ~Context();
 
-    void start() { _reader.start(); }
+    bool start() { return _reader.start(); }
     void stop() { _reader.stop(); }
     PyObject* poll_event();
     bool eos() { return _reader.eos(); }
diff --git a/bindings/python3/hawktracer_client_python.cpp b/bindings/python3/hawktracer_client_python.cpp
index 24be6fd..7091877 100644
--- a/bindings/python3/hawktracer_client_python.cpp
+++ b/bindings/python3/hawktracer_client_python.cpp
@@ -73,7 +73,13 @@ client_start(HT_Python_Client* self, PyObject* args)
     }
 
     self->context = new Context(std::move(stream), callback_obj);
-    self->context->start();
+    if (!self->context->start())
+    {
+        delete self->context;
+        self->context = nullptr;
+        PyErr_SetString(PyExc_RuntimeError, "unable to start the stream");
+        return nullptr;
+    }
     Py_RETURN_NONE;
 }
 
-- 
2.43.0


From ee1793a804533af368909335374f5e4ed7b175e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:26 +0000
Subject: [PATCH 59/71] fix: release the GIL while a Python client waits for
 its stream or its thread

---
 bindings/python3/client_context.cpp           | 22 ++++++---
 bindings/python3/client_context.hpp           |  3 +-
 bindings/python3/hawktracer_client_python.cpp | 47 +++++++++++++------
 3 files changed, 51 insertions(+), 21 deletions(-)

diff --git a/bindings/python3/client_context.cpp b/bindings/python3/client_context.cpp
index 42dad4b..ee792eb 100644
--- a/bindings/python3/client_context.cpp
+++ b/bindings/python3/client_context.cpp
@@ -67,12 +67,22 @@ Context::Context(std::unique_ptr<parser::Stream> stream, PyObject* on_new_event)
 }
 
 Context::~Context()
- {
-     if (_on_new_event)
-     {
-         Py_DECREF(_on_new_event);
-     }
- }
+{
+    stop();
+    Py_XDECREF(_on_new_event);
+}
+
+void Context::stop()
+{
+    // The thread of the reader might need the GIL for calling the callback, so it can't be held
+    // by the thread waiting for it.
+    Py_BEGIN_ALLOW_THREADS
+    {
+        std::lock_guard<std::mutex> l(_stop_mtx);
+        _reader.stop();
+    }
+    Py_END_ALLOW_THREADS
+}
 
 PyObject* Context::poll_event()
 {
diff --git a/bindings/python3/client_context.hpp b/bindings/python3/client_context.hpp
index 91440a1..a09c73a 100644
--- a/bindings/python3/client_context.hpp
+++ b/bindings/python3/client_context.hpp
@@ -22,7 +22,7 @@ public:
     ~Context();
 
     bool start() { return _reader.start(); }
-    void stop() { _reader.stop(); }
+    void stop();
     PyObject* poll_event();
     bool eos() { return _reader.eos(); }
     void wait_for_complete() { _reader.wait_for_complete(); }
@@ -30,6 +30,7 @@ public:
 private:
     void _trigger_callback(const parser::Event& event);
 
+    std::mutex _stop_mtx;
     std::mutex _events_mtx;
     std::queue<parser::Event> _events;
     parser::KlassRegister _klass_register;
diff --git a/bindings/python3/hawktracer_client_python.cpp b/bindings/python3/hawktracer_client_python.cpp
index 7091877..a0cd13d 100644
--- a/bindings/python3/hawktracer_client_python.cpp
+++ b/bindings/python3/hawktracer_client_python.cpp
@@ -3,6 +3,9 @@
 #include "client_context.hpp"
 #include <hawktracer/client_utils/stream_factory.hpp>
 
+#include <memory>
+#include <new>
+
 namespace HawkTracer
 {
 namespace Python
@@ -13,7 +16,8 @@ using namespace HawkTracer;
 struct HT_Python_Client
 {
     PyObject_HEAD
-    Context* context;
+    // shared with threads which currently use it without holding the GIL
+    std::shared_ptr<Context> context;
 };
 
 static PyObject *
@@ -27,13 +31,13 @@ client_new(PyTypeObject *type, PyObject *args, PyObject *kwds)
     auto self = reinterpret_cast<HT_Python_Client*>(type->tp_alloc(type, 0));
     if (self)
     {
-        self->context = nullptr;
+        new (&self->context) std::shared_ptr<Context>();
     }
 
     return reinterpret_cast<PyObject*>(self);
 }
 
-static Context*
+static std::shared_ptr<Context>
 client_get_context(HT_Python_Client* self)
 {
     if (!self->context)
@@ -67,26 +71,41 @@ client_start(HT_Python_Client* self, PyObject* args)
         return nullptr;
     }
 
-    if (self->context)
+    std::shared_ptr<Context> old_context;
+    old_context.swap(self->context);
+    if (old_context)
     {
-        delete self->context;
+        old_context->stop();
     }
 
-    self->context = new Context(std::move(stream), callback_obj);
-    if (!self->context->start())
+    auto context = std::make_shared<Context>(std::move(stream), callback_obj);
+    bool started;
+
+    Py_BEGIN_ALLOW_THREADS
+
+    started = context->start();
+
+    Py_END_ALLOW_THREADS
+
+    if (!started)
     {
-        delete self->context;
-        self->context = nullptr;
         PyErr_SetString(PyExc_RuntimeError, "unable to start the stream");
         return nullptr;
     }
+
+    context.swap(self->context);
+    if (context)
+    {
+        // another thread started this client at the same time
+        context->stop();
+    }
     Py_RETURN_NONE;
 }
 
 static PyObject *
 client_stop(HT_Python_Client* self, PyObject *Py_UNUSED(ignored))
 {
-    Context* context = client_get_context(self);
+    std::shared_ptr<Context> context = client_get_context(self);
     if (!context)
     {
         return nullptr;
@@ -99,7 +118,7 @@ client_stop(HT_Python_Client* self, PyObject *Py_UNUSED(ignored))
 static PyObject *
 client_poll_event(HT_Python_Client* self, PyObject *Py_UNUSED(ignored))
 {
-    Context* context = client_get_context(self);
+    std::shared_ptr<Context> context = client_get_context(self);
     if (!context)
     {
         return nullptr;
@@ -111,7 +130,7 @@ client_poll_event(HT_Python_Client* self, PyObject *Py_UNUSED(ignored))
 static PyObject *
 client_wait_for_eos(HT_Python_Client* self, PyObject *Py_UNUSED(ignored))
 {
-    Context* context = client_get_context(self);
+    std::shared_ptr<Context> context = client_get_context(self);
     if (!context)
     {
         return nullptr;
@@ -128,7 +147,7 @@ client_wait_for_eos(HT_Python_Client* self, PyObject *Py_UNUSED(ignored))
 static PyObject *
 client_eos(HT_Python_Client* self, PyObject *Py_UNUSED(ignored))
 {
-    Context* context = client_get_context(self);
+    std::shared_ptr<Context> context = client_get_context(self);
     if (!context)
     {
         return nullptr;
@@ -141,7 +160,7 @@ static void
 client_dealloc(PyObject* self)
 {
     auto client = reinterpret_cast<HT_Python_Client*>(self);
-    delete client->context;
+    client->context.~shared_ptr();
     Py_TYPE(self)->tp_free((PyObject *) self);
 }
 
-- 
2.43.0


From a22ff28be67fccee567801db13b4a156b669ee9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:47 +0000
Subject: [PATCH 60/71] fix: destroy events waiting in a Python client before
 their klasses

---
 bindings/python3/client_context.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python3/client_context.hpp b/bindings/python3/client_context.hpp
index a09c73a..036b368 100644
--- a/bindings/python3/client_context.hpp
+++ b/bindings/python3/client_context.hpp
@@ -32,8 +32,8 @@ private:
 
     std::mutex _stop_mtx;
     std::mutex _events_mtx;
-    std::queue<parser::Event> _events;
     parser::KlassRegister _klass_register;
+    std::queue<parser::Event> _events; // refers to klasses from the register
     parser::ProtocolReader _reader;
     PyObject* _on_new_event = nullptr;
 };
-- 
2.43.0


From 22f6b13c3107c57be87988589a0760b935105b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:04 +0000
Subject: [PATCH 61/71] fix: support strings which are not valid UTF-8 in a
 Python client

---
 bindings/python3/client_context.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/bindings/python3/client_context.cpp b/bindings/python3/client_context.cpp
index ee792eb..804e501 100644
--- a/bindings/python3/client_context.cpp
+++ b/bindings/python3/client_context.cpp
@@ -1,11 +1,19 @@
 #include "client_context.hpp"
 #include "hawktracer/parser/event.hpp"
 
+#include <cstring>
+
 namespace HawkTracer
 {
 namespace Python
 {
 
+static PyObject* create_string(const char* str)
+{
+    // Strings in a stream are sequences of bytes, there's no guarantee they're valid UTF-8
+    return PyUnicode_DecodeUTF8(str, (Py_ssize_t)strlen(str), "backslashreplace");
+}
+
 static PyObject* event_to_dictionary(const parser::Event& event)
 {
 #define CREATE_INT_TYPE(HAWKTRACER_TYPE, PY_CREATE_FUNCTION) \
@@ -27,7 +35,7 @@ static PyObject* event_to_dictionary(const parser::Event& event)
             val = PyLong_FromVoidPtr(p.second.value.f_POINTER);
             break;
         case parser::FieldTypeId::STRING:
-            val = PyUnicode_FromString(p.second.value.f_STRING);
+            val = create_string(p.second.value.f_STRING);
             break;
         default:
             break;
@@ -38,7 +46,9 @@ static PyObject* event_to_dictionary(const parser::Event& event)
             continue;
         }
 
-        PyDict_SetItemString(dict, p.first.c_str(), val);
+        PyObject* key = create_string(p.first.c_str());
+        PyDict_SetItem(dict, key, val);
+        Py_DECREF(key);
         Py_DECREF(val);
     }
 
@@ -95,14 +105,14 @@ PyObject* Context::poll_event()
     parser::Event evt = _events.front();
     PyObject* py_event = event_to_dictionary(evt);
     _events.pop();
-    return Py_BuildValue("sN", evt.get_klass()->get_name().c_str(), py_event);
+    return Py_BuildValue("NN", create_string(evt.get_klass()->get_name().c_str()), py_event);
 }
 
 void Context::_trigger_callback(const parser::Event& event)
 {
     PyGILState_STATE gstate = PyGILState_Ensure();
 
-    PyObject* arglist = Py_BuildValue("(sN)", event.get_klass()->get_name().c_str(), event_to_dictionary(event));
+    PyObject* arglist = Py_BuildValue("(NN)", create_string(event.get_klass()->get_name().c_str()), event_to_dictionary(event));
     PyObject* result = PyEval_CallObject(_on_new_event, arglist);
     Py_DECREF(arglist);
 
-- 
2.43.0


From db322a78cd180915b81fa2ba01635a4c9e3710c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:14 +0000
Subject: [PATCH 62/71] fix: accept None as a callback of a Python client

---
 bindings/python3/hawktracer_client_python.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bindings/python3/hawktracer_client_python.cpp b/bindings/python3/hawktracer_client_python.cpp
index a0cd13d..91d867b 100644
--- a/bindings/python3/hawktracer_client_python.cpp
+++ b/bindings/python3/hawktracer_client_python.cpp
@@ -59,6 +59,11 @@ client_start(HT_Python_Client* self, PyObject* args)
         return nullptr;
     }
 
+    if (callback_obj == Py_None)
+    {
+        callback_obj = nullptr;
+    }
+
     if (callback_obj && !PyCallable_Check(callback_obj))
     {
         PyErr_SetString(PyExc_TypeError, "parameter must be callable");
-- 
2.43.0


From 8a279e8218359d6d07b82794afc81e5089555980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:11 +0000
Subject: [PATCH 63/71] fix: stop Python clients before the interpreter is
 finalized

---
 bindings/python3/hawktracer_client_python.cpp | 60 +++++++++++++++++++
 1 file changed, 60 insertions(+)

diff --git a/bindings/python3/hawktracer_client_python.cpp b/bindings/python3/hawktracer_client_python.cpp
index 91d867b..ef7ba4e 100644
--- a/bindings/python3/hawktracer_client_python.cpp
+++ b/bindings/python3/hawktracer_client_python.cpp
@@ -3,8 +3,10 @@
 #include "client_context.hpp"
 #include <hawktracer/client_utils/stream_factory.hpp>
 
+#include <algorithm>
 #include <memory>
 #include <new>
+#include <vector>
 
 namespace HawkTracer
 {
@@ -20,6 +22,58 @@ struct HT_Python_Client
     std::shared_ptr<Context> context;
 };
 
+// protected by the GIL
+static std::vector<std::weak_ptr<Context>> started_contexts;
+
+static void
+register_started_context(const std::shared_ptr<Context>& context)
+{
+    started_contexts.erase(std::remove_if(started_contexts.begin(), started_contexts.end(),
+                                          [](const std::weak_ptr<Context>& c) { return c.expired(); }),
+                           started_contexts.end());
+    started_contexts.push_back(context);
+}
+
+static PyObject *
+stop_started_contexts(PyObject *Py_UNUSED(self), PyObject *Py_UNUSED(ignored))
+{
+    std::vector<std::weak_ptr<Context>> contexts;
+    contexts.swap(started_contexts);
+
+    for (const auto& c : contexts)
+    {
+        if (auto context = c.lock())
+        {
+            context->stop();
+        }
+    }
+
+    Py_RETURN_NONE;
+}
+
+static PyMethodDef stop_started_contexts_method = {
+    "_stop_clients", stop_started_contexts, METH_NOARGS, "Stop all the clients."
+};
+
+// Callbacks can't be called once the interpreter started its finalization
+static bool
+stop_contexts_at_exit()
+{
+    PyObject* atexit = PyImport_ImportModule("atexit");
+    PyObject* function = PyCFunction_New(&stop_started_contexts_method, nullptr);
+    PyObject* result = nullptr;
+    if (atexit && function)
+    {
+        result = PyObject_CallMethod(atexit, "register", "O", function);
+    }
+
+    bool ok = result != nullptr;
+    Py_XDECREF(result);
+    Py_XDECREF(function);
+    Py_XDECREF(atexit);
+    return ok;
+}
+
 static PyObject *
 client_new(PyTypeObject *type, PyObject *args, PyObject *kwds)
 {
@@ -98,6 +152,7 @@ client_start(HT_Python_Client* self, PyObject* args)
         return nullptr;
     }
 
+    register_started_context(context);
     context.swap(self->context);
     if (context)
     {
@@ -277,6 +332,11 @@ PyInit_client(void)
         return nullptr;
     }
 
+    if (!HawkTracer::Python::stop_contexts_at_exit())
+    {
+        return nullptr;
+    }
+
     PyObject* module = PyModule_Create(&HawkTracer::Python::HawkTracer_module);
     if (module)
     {
-- 
2.43.0


From 6c0119e0957cfe9937f53da2c400da7a24bb3a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:32 +0000
Subject: [PATCH 64/71] fix: allow a listener to stop the reader which called
 it

---
 parser/include/hawktracer/parser/protocol_reader.hpp | 1 +
 parser/protocol_reader.cpp                           | 9 +++++++++
 2 files changed, 10 insertions(+)

diff --git a/parser/include/hawktracer/parser/protocol_reader.hpp b/parser/include/hawktracer/parser/protocol_reader.hpp
index 724fccb..febbee8 100644
--- a/parser/include/hawktracer/parser/protocol_reader.hpp
+++ b/parser/include/hawktracer/parser/protocol_reader.hpp
@@ -45,6 +45,7 @@ private:
     std::vector<OnNewEventCallback> _on_new_event_callbacks;
     std::unique_ptr<Stream> _stream;
     std::thread _thread;
+    std::atomic<std::thread::id> _thread_id{std::thread::id()};
     std::atomic_bool _is_running{false};
     std::condition_variable _cv;
     std::mutex _mtx_cv;
diff --git a/parser/protocol_reader.cpp b/parser/protocol_reader.cpp
index f5b3deb..313d289 100644
--- a/parser/protocol_reader.cpp
+++ b/parser/protocol_reader.cpp
@@ -58,6 +58,12 @@ bool ProtocolReader::start()
 void ProtocolReader::stop()
 {
     _is_running = false;
+    if (std::this_thread::get_id() == _thread_id)
+    {
+        // Called by a listener; the thread finishes as soon as the listener returns
+        return;
+    }
+
     if (_stream->is_continuous())
     {
         // The reader might be waiting for data that never arrives
@@ -78,6 +84,8 @@ void ProtocolReader::wait_for_complete()
 
 void ProtocolReader::_read_events()
 {
+    _thread_id = std::this_thread::get_id();
+
     while (_is_running && !_is_stream_corrupted)
     {
         bool is_error = false;
@@ -130,6 +138,7 @@ void ProtocolReader::_read_events()
 
     {
         std::lock_guard<std::mutex> l(_mtx_cv);
+        _thread_id = std::thread::id();
         _is_running = false;
     }
     _cv.notify_all();
-- 
2.43.0


From b8ee419d7f85fbf4a5a6f9cc64c4be1926f11a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:55 +0000
Subject: [PATCH 65/71] fix: let a callback of a Python client stop, restart or
 release the client

---
 bindings/python3/client_context.cpp           |  9 ++++
 bindings/python3/client_context.hpp           |  3 ++
 bindings/python3/hawktracer_client_python.cpp | 50 +++++++++++++++----
 3 files changed, 51 insertions(+), 11 deletions(-)

diff --git a/bindings/python3/client_context.cpp b/bindings/python3/client_context.cpp
index 804e501..4e641cd 100644
--- a/bindings/python3/client_context.cpp
+++ b/bindings/python3/client_context.cpp
@@ -84,6 +84,13 @@ Context::~Context()
 
 void Context::stop()
 {
+    if (is_callback_thread())
+    {
+        // There's nothing to wait for, the reader finishes once the callback returns
+        _reader.stop();
+        return;
+    }
+
     // The thread of the reader might need the GIL for calling the callback, so it can't be held
     // by the thread waiting for it.
     Py_BEGIN_ALLOW_THREADS
@@ -112,6 +119,7 @@ void Context::_trigger_callback(const parser::Event& event)
 {
     PyGILState_STATE gstate = PyGILState_Ensure();
 
+    _callback_thread_id = std::this_thread::get_id();
     PyObject* arglist = Py_BuildValue("(NN)", create_string(event.get_klass()->get_name().c_str()), event_to_dictionary(event));
     PyObject* result = PyEval_CallObject(_on_new_event, arglist);
     Py_DECREF(arglist);
@@ -126,6 +134,7 @@ void Context::_trigger_callback(const parser::Event& event)
         Py_DECREF(result);
     }
 
+    _callback_thread_id = std::thread::id();
     PyGILState_Release(gstate);
 }
 
diff --git a/bindings/python3/client_context.hpp b/bindings/python3/client_context.hpp
index 036b368..5e39a03 100644
--- a/bindings/python3/client_context.hpp
+++ b/bindings/python3/client_context.hpp
@@ -9,6 +9,7 @@
 
 #include <mutex>
 #include <queue>
+#include <thread>
 
 namespace HawkTracer
 {
@@ -23,6 +24,7 @@ public:
 
     bool start() { return _reader.start(); }
     void stop();
+    bool is_callback_thread() const { return std::this_thread::get_id() == _callback_thread_id; }
     PyObject* poll_event();
     bool eos() { return _reader.eos(); }
     void wait_for_complete() { _reader.wait_for_complete(); }
@@ -36,6 +38,7 @@ private:
     std::queue<parser::Event> _events; // refers to klasses from the register
     parser::ProtocolReader _reader;
     PyObject* _on_new_event = nullptr;
+    std::thread::id _callback_thread_id; // protected by the GIL
 };
 
 } // namespace Python
diff --git a/bindings/python3/hawktracer_client_python.cpp b/bindings/python3/hawktracer_client_python.cpp
index ef7ba4e..58a47bf 100644
--- a/bindings/python3/hawktracer_client_python.cpp
+++ b/bindings/python3/hawktracer_client_python.cpp
@@ -25,6 +25,34 @@ struct HT_Python_Client
 // protected by the GIL
 static std::vector<std::weak_ptr<Context>> started_contexts;
 
+// contexts released by their own callbacks; a thread can't wait for itself, so another one has to do that
+static std::vector<std::shared_ptr<Context>> orphaned_contexts;
+
+static void
+release_context(std::shared_ptr<Context> context)
+{
+    if (context)
+    {
+        context->stop();
+        if (context->is_callback_thread())
+        {
+            orphaned_contexts.push_back(std::move(context));
+        }
+    }
+}
+
+static void
+release_orphaned_contexts()
+{
+    std::vector<std::shared_ptr<Context>> contexts;
+    contexts.swap(orphaned_contexts);
+
+    for (auto& context : contexts)
+    {
+        release_context(std::move(context));
+    }
+}
+
 static void
 register_started_context(const std::shared_ptr<Context>& context)
 {
@@ -48,6 +76,7 @@ stop_started_contexts(PyObject *Py_UNUSED(self), PyObject *Py_UNUSED(ignored))
         }
     }
 
+    release_orphaned_contexts();
     Py_RETURN_NONE;
 }
 
@@ -130,12 +159,8 @@ client_start(HT_Python_Client* self, PyObject* args)
         return nullptr;
     }
 
-    std::shared_ptr<Context> old_context;
-    old_context.swap(self->context);
-    if (old_context)
-    {
-        old_context->stop();
-    }
+    release_orphaned_contexts();
+    release_context(std::move(self->context));
 
     auto context = std::make_shared<Context>(std::move(stream), callback_obj);
     bool started;
@@ -154,11 +179,7 @@ client_start(HT_Python_Client* self, PyObject* args)
 
     register_started_context(context);
     context.swap(self->context);
-    if (context)
-    {
-        // another thread started this client at the same time
-        context->stop();
-    }
+    release_context(std::move(context)); // another thread might have started this client at the same time
     Py_RETURN_NONE;
 }
 
@@ -196,6 +217,12 @@ client_wait_for_eos(HT_Python_Client* self, PyObject *Py_UNUSED(ignored))
         return nullptr;
     }
 
+    if (context->is_callback_thread())
+    {
+        PyErr_SetString(PyExc_RuntimeError, "callback can't wait for the end of its stream");
+        return nullptr;
+    }
+
     Py_BEGIN_ALLOW_THREADS
 
     context->wait_for_complete();
@@ -220,6 +247,7 @@ static void
 client_dealloc(PyObject* self)
 {
     auto client = reinterpret_cast<HT_Python_Client*>(self);
+    release_context(std::move(client->context));
     client->context.~shared_ptr();
     Py_TYPE(self)->tp_free((PyObject *) self);
 }
-- 
2.43.0


From 93bfe7422d5be0644595ed93297049354c48be02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:56 +0000
Subject: [PATCH 66/71] fix: a TCP listener stop concurrent with another stop
 waits until it is complete

---
 lib/listeners/tcp_listener.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/lib/listeners/tcp_listener.c b/lib/listeners/tcp_listener.c
index 8478cc4..dd0b106 100644
--- a/lib/listeners/tcp_listener.c
+++ b/lib/listeners/tcp_listener.c
@@ -15,6 +15,7 @@
 struct _HT_TCPListener
 {
     HT_Mutex* _push_action_mutex;
+    HT_Mutex* _stop_mutex;
     HT_ListenerBuffer _buffer;
     HT_TCPServer* _tcp_server;
     int _last_client_sock_fd;
@@ -96,6 +97,13 @@ ht_tcp_listener_init(HT_TCPListener* listener, int port, size_t buffer_size)
         goto create_mutex_failed;
     }
 
+    listener->_stop_mutex = ht_mutex_create();
+    if (listener->_stop_mutex == NULL)
+    {
+        error_code = HT_ERR_OUT_OF_MEMORY;
+        goto create_stop_mutex_failed;
+    }
+
     listener->_tcp_server = ht_tcp_server_create();
     if (listener->_tcp_server == NULL)
     {
@@ -112,6 +120,8 @@ ht_tcp_listener_init(HT_TCPListener* listener, int port, size_t buffer_size)
     ht_tcp_server_destroy(listener->_tcp_server);
 
 create_server_failed:
+    ht_mutex_destroy(listener->_stop_mutex);
+create_stop_mutex_failed:
     ht_mutex_destroy(listener->_push_action_mutex);
 create_mutex_failed:
     ht_listener_buffer_deinit(&listener->_buffer);
@@ -214,10 +224,8 @@ ht_tcp_listener_set_on_client_connected_callback(
 void
 ht_tcp_listener_destroy(HT_TCPListener* listener)
 {
-    if (!_ht_tcp_listener_is_stopped(listener))
-    {
-        ht_tcp_listener_stop(listener);
-    }
+    ht_tcp_listener_stop(listener);
+    ht_mutex_destroy(listener->_stop_mutex);
     ht_mutex_destroy(listener->_push_action_mutex);
     ht_free(listener);
 }
@@ -233,11 +241,14 @@ ht_tcp_listener_stop(HT_TCPListener* listener)
 {
     HT_TCPServer* server;
 
+    /* If the listener is being stopped by another thread, wait until it's done */
+    ht_mutex_lock(listener->_stop_mutex);
     ht_mutex_lock(listener->_push_action_mutex);
 
     if (_ht_tcp_listener_is_stopped(listener))
     {
         ht_mutex_unlock(listener->_push_action_mutex);
+        ht_mutex_unlock(listener->_stop_mutex);
         return;
     }
 
@@ -251,6 +262,7 @@ ht_tcp_listener_stop(HT_TCPListener* listener)
     /* The accept thread needs the mutex for sending metadata to new clients,
      * so the server has to be stopped when the mutex is not locked. */
     ht_tcp_server_destroy(server);
+    ht_mutex_unlock(listener->_stop_mutex);
 }
 
 #endif /* HT_ENABLE_TCP_LISTENER */
-- 
2.43.0


From 3bf6e709a10691ef69da3914df3dfec7a145c601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:18 +0000
Subject: [PATCH 67/71] fix: assigning to a parsed event releases the values it
 held

---
 parser/event.cpp                           | 9 +++++++++
 parser/include/hawktracer/parser/event.hpp | 2 +-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/parser/event.cpp b/parser/event.cpp
index 9a9f898..6880cdc 100644
--- a/parser/event.cpp
+++ b/parser/event.cpp
@@ -85,6 +85,15 @@ static void free_value(const EventKlassField& field, const FieldType& value)
     }
 }
 
+Event& Event::operator=(Event other)
+{
+    // old values are freed by the destructor of the other event
+    std::swap(_values, other._values);
+    std::swap(_klass, other._klass);
+    std::swap(_timestamp, other._timestamp);
+    return *this;
+}
+
 Event::~Event()
 {
     for (const auto& value : _values)
diff --git a/parser/include/hawktracer/parser/event.hpp b/parser/include/hawktracer/parser/event.hpp
index c96269c..280b3b1 100644
--- a/parser/include/hawktracer/parser/event.hpp
+++ b/parser/include/hawktracer/parser/event.hpp
@@ -37,7 +37,7 @@ public:
     {
     }
     Event(const Event& other) = default;
-    Event& operator=(const Event& other) = default;
+    Event& operator=(Event other);
     Event(Event&&) = default;
 
     ~Event();
-- 
2.43.0


From ab659ce86f78cec3d354c061fce005beee716238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:30 +0000
Subject: [PATCH 68/71] fix: a parsed event keeps the klasses of merged base
 values alive

---
 parser/event.cpp                           | 4 ++++
 parser/include/hawktracer/parser/event.hpp | 1 +
 2 files changed, 5 insertions(+)

diff --git a/parser/event.cpp b/parser/event.cpp
index 6880cdc..e0f8132 100644
--- a/parser/event.cpp
+++ b/parser/event.cpp
@@ -90,6 +90,7 @@ Event& Event::operator=(Event other)
     // old values are freed by the destructor of the other event
     std::swap(_values, other._values);
     std::swap(_klass, other._klass);
+    std::swap(_merged_klasses, other._merged_klasses);
     std::swap(_timestamp, other._timestamp);
     return *this;
 }
@@ -107,6 +108,9 @@ Event::~Event()
 
 void Event::merge(Event event)
 {
+    _merged_klasses.insert(_merged_klasses.end(), event._merged_klasses.begin(), event._merged_klasses.end());
+    _merged_klasses.push_back(event._klass);
+
     for (auto& value : event._values)
     {
         set_value(value.second.field, value.second.value);
diff --git a/parser/include/hawktracer/parser/event.hpp b/parser/include/hawktracer/parser/event.hpp
index 280b3b1..b7fe119 100644
--- a/parser/include/hawktracer/parser/event.hpp
+++ b/parser/include/hawktracer/parser/event.hpp
@@ -77,6 +77,7 @@ public:
 private:
     std::unordered_map<std::string, Value> _values;
     std::shared_ptr<const EventKlass> _klass;
+    std::vector<std::shared_ptr<const EventKlass>> _merged_klasses; // owners of the fields of merged values
     HT_TimestampNs _timestamp = (HT_TimestampNs)-1;
 };
 
-- 
2.43.0


From b3582058257bec20ffff5aa8a045d710ffea8568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:47 +0000
Subject: [PATCH 69/71] fix: the duration macros overflowed with int arguments
 and misread expressions

---
 lib/include/hawktracer/duration_conversion.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/include/hawktracer/duration_conversion.h b/lib/include/hawktracer/duration_conversion.h
index 7a09e54..7a6a002 100644
--- a/lib/include/hawktracer/duration_conversion.h
+++ b/lib/include/hawktracer/duration_conversion.h
@@ -1,13 +1,15 @@
 #ifndef HAWKTRACER_DURATION_CONVERSION_H
 #define HAWKTRACER_DURATION_CONVERSION_H
 
+#include <hawktracer/base_types.h>
+
 /** Converts @p X value to nanoseconds. */
-#define HT_DUR_NS(X) X
+#define HT_DUR_NS(X) (X)
 /** Converts @p X value to microseconds. */
-#define HT_DUR_US(X) (1000u * X)
+#define HT_DUR_US(X) ((HT_DurationNs)1000u * (X))
 /** Converts @p X value to milliseconds. */
-#define HT_DUR_MS(X) (1000u * HT_DUR_US(X))
+#define HT_DUR_MS(X) ((HT_DurationNs)1000u * HT_DUR_US(X))
 /** Converts @p X value to seconds. */
-#define HT_DUR_S(X) (1000u * HT_DUR_MS(X))
+#define HT_DUR_S(X) ((HT_DurationNs)1000u * HT_DUR_MS(X))
 
 #endif /* HAWKTRACER_DURATION_CONVERSION_H */
-- 
2.43.0


From 6296565fd2b121180cf078753827b0516931e8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:14 +0000
Subject: [PATCH 70/71] fix: the TCP server joined its accepting thread twice

ht_thread_destroy() joins the thread; with POSIX threads (HT_THREAD_IMPL_POSIX, or
a build without C++11) joining it beforehand is undefined behaviour.
---
 lib/tcp_server.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lib/tcp_server.cpp b/lib/tcp_server.cpp
index 40c39f4..654fcf0 100644
--- a/lib/tcp_server.cpp
+++ b/lib/tcp_server.cpp
@@ -281,7 +281,6 @@ ht_tcp_server_stop(HT_TCPServer* server)
 
     if (server->accept_client_thread)
     {
-        ht_thread_join(server->accept_client_thread);
         ht_thread_destroy(server->accept_client_thread);
         server->accept_client_thread = NULL;
     }
-- 
2.43.0


From b372fad1a620bdd740c73702725f3a6aac880e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:33 +0000
Subject: [PATCH 71/71] fix: a client kept receiving data after a send to it
 had failed

The metadata sent to a new client is written without looking at the
result. When the system refused it (ENOBUFS, ENOMEM), the client was
accepted anyway and got the rest of a stream with a gap in it.
---
 lib/tcp_server.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/tcp_server.cpp b/lib/tcp_server.cpp
index 654fcf0..e59004b 100644
--- a/lib/tcp_server.cpp
+++ b/lib/tcp_server.cpp
@@ -359,6 +359,8 @@ ht_tcp_server_write_to_socket(HT_TCPServer* server, int sock_fd, char* buffer, s
 
         if (n <= 0)
         {
+            /* Nothing else can be sent to the socket, the client would see a gap in the stream */
+            shutdown(sock_fd, 2);
             return HT_FALSE;
         }
 
-- 
2.43.0

