From ea307b55bf58f789b0168cb248fcdb815f900bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:20 +0000
Subject: [PATCH 01/46] fix: rtSemaphore_TimedWait reported success on a
 spurious wakeup

---
 src/rtmessage/rtSemaphore.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/rtmessage/rtSemaphore.c b/src/rtmessage/rtSemaphore.c
index 45d64d4..6505de8 100644
--- a/src/rtmessage/rtSemaphore.c
+++ b/src/rtmessage/rtSemaphore.c
@@ -106,14 +106,18 @@ rtError rtSemaphore_TimedWait(rtSemaphore sem, struct timespec* t)
     ERROR_CHECK(pthread_mutex_unlock(&sem->m));
     return RT_OK;
   }
-  if(t)
-    err = pthread_cond_timedwait(&sem->c, &sem->m, t);
-  else
-    err = pthread_cond_wait(&sem->c, &sem->m);
+  /*a condition variable may wake without having been signaled*/
+  do
+  {
+    if(t)
+      err = pthread_cond_timedwait(&sem->c, &sem->m, t);
+    else
+      err = pthread_cond_wait(&sem->c, &sem->m);
+  }
+  while(err == 0 && sem->v == 0);
   if(err == 0)
   {
-    if(sem->v > 0)
-      sem->v--;
+    sem->v--;
   }
   else
   {
-- 
2.43.0


From ce8af165e5821dd504be6d1873221c47b58fc07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:39 +0000
Subject: [PATCH 02/46] fix: a timed-out request left the pending list without
 holding the connection lock

---
 src/rtmessage/rtConnection.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/rtmessage/rtConnection.c b/src/rtmessage/rtConnection.c
index 142fba0..68ba33c 100644
--- a/src/rtmessage/rtConnection.c
+++ b/src/rtmessage/rtConnection.c
@@ -1050,7 +1050,7 @@ rtConnection_SendRequestInternal(rtConnection con, uint8_t const* pReq, uint32_t
         else if(err == RT_NO_CONNECTION)
         {
           ret = err;
-          goto dequeue_and_continue;
+          break;
         }
         else
         {
@@ -1060,11 +1060,12 @@ rtConnection_SendRequestInternal(rtConnection con, uint8_t const* pReq, uint32_t
         }
       } while(RT_OK == err);
     }
+    /*the pending list and this entry are shared with the reader thread*/
+    pthread_mutex_lock(&con->mutex);
+
     if(RT_OK == ret)
     {
       /*Sem posted*/
-      pthread_mutex_lock(&con->mutex);
-
       if(queue_entry.response)
       {
         if(queue_entry.response->header.flags & rtMessageFlags_Undeliverable)
@@ -1086,6 +1087,11 @@ rtConnection_SendRequestInternal(rtConnection con, uint8_t const* pReq, uint32_t
         ret = RT_ERROR;
       }
     }
+    else if(queue_entry.response)
+    {
+      /*the response arrived after we gave up waiting for it*/
+      rtMessageInfo_Release(queue_entry.response);
+    }
 
 dequeue_and_continue:
     rtList_RemoveItem(con->pending_requests_list, listItem, NULL);
-- 
2.43.0


From 2ca023e4ea75ea32e4fe587ddfd8319b76204968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:46 +0000
Subject: [PATCH 03/46] fix: a blocked send stopped the reader thread and could
 deadlock client and router

---
 src/rtmessage/rtConnection.c | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/rtmessage/rtConnection.c b/src/rtmessage/rtConnection.c
index 68ba33c..82b6475 100644
--- a/src/rtmessage/rtConnection.c
+++ b/src/rtmessage/rtConnection.c
@@ -111,6 +111,7 @@ struct _rtConnection
   char                    inbox_name[RTMSG_HEADER_MAX_TOPIC_LENGTH];
   struct _rtListener      listeners[RTMSG_LISTENERS_MAX];
   pthread_mutex_t         mutex;
+  pthread_mutex_t         send_mutex; /*serializes sends; never held together with mutex so that a blocked send cannot stop the reader*/
   rtList                  pending_requests_list;
   rtList                  callback_message_list;
   rtMessageCallback       default_callback;
@@ -532,6 +533,7 @@ rtConnection_CreateInternal(rtConnection* con, char const* application_name, cha
   pthread_mutexattr_init(&mutex_attribute);
   pthread_mutexattr_settype(&mutex_attribute, PTHREAD_MUTEX_ERRORCHECK);
   if (0 != pthread_mutex_init(&c->mutex, &mutex_attribute) ||
+      0 != pthread_mutex_init(&c->send_mutex, &mutex_attribute) ||
       0 != pthread_mutex_init(&c->callback_message_mutex, &mutex_attribute) ||
       0 != pthread_mutex_init(&c->reconnect_mutex, &mutex_attribute))
   {
@@ -754,6 +756,7 @@ rtConnection_Destroy(rtConnection con)
     }
 
     pthread_mutex_destroy(&con->mutex);
+    pthread_mutex_destroy(&con->send_mutex);
     pthread_mutex_destroy(&con->callback_message_mutex);
     pthread_cond_destroy(&con->callback_message_cond);
     pthread_mutex_destroy(&con->reconnect_mutex);
@@ -787,14 +790,14 @@ rtConnection_SendMessageDirect(rtConnection con, rtMessage msg, char const* topi
     uint32_t sequence_number;
     rtMessage_ToByteArrayWithSize(msg, &p, DEFAULT_SEND_BUFFER_SIZE, &n);  /*FIXME unification is this needed ? rtMessage_FreeByteArray(p);*/
 
-    pthread_mutex_lock(&con->mutex);
+    pthread_mutex_lock(&con->send_mutex);
 #ifdef C11_ATOMICS_SUPPORTED
     sequence_number = atomic_fetch_add_explicit(&con->sequence_number, 1, memory_order_relaxed);
 #else
     sequence_number = __sync_fetch_and_add(&con->sequence_number, 1);
 #endif
     err = rtConnection_SendInternal(con, p, n, topic, listener, 0, sequence_number, 0, 0, 0);
-    pthread_mutex_unlock(&con->mutex);
+    pthread_mutex_unlock(&con->send_mutex);
     rtMessage_FreeByteArray(p);
 
     if(err == RT_NO_CONNECTION)
@@ -847,10 +850,10 @@ rtConnection_SendResponse(rtConnection con, rtMessageHeader const* request_hdr,
     uint32_t n;
 
     rtMessage_ToByteArrayWithSize(res, &p, DEFAULT_SEND_BUFFER_SIZE, &n);
-    pthread_mutex_lock(&con->mutex);
+    pthread_mutex_lock(&con->send_mutex);
   //TODO: should we send response on reconnect ?
     err = rtConnection_SendInternal(con, p, n, request_hdr->reply_topic, request_hdr->topic, rtMessageFlags_Response, request_hdr->sequence_number, 0, 0, 0);
-    pthread_mutex_unlock(&con->mutex);
+    pthread_mutex_unlock(&con->send_mutex);
     rtMessage_FreeByteArray(p);
 
     if(err == RT_NO_CONNECTION)
@@ -894,9 +897,9 @@ rtConnection_SendBinaryDirect(rtConnection con, uint8_t const* p, uint32_t n, ch
     sequence_number = __sync_fetch_and_add(&con->sequence_number, 1);
 #endif
 
-    pthread_mutex_lock(&con->mutex);
+    pthread_mutex_lock(&con->send_mutex);
     err = rtConnection_SendInternal(con, p, n, topic, listener, rtMessageFlags_RawBinary, sequence_number, 0, 0, 0);
-    pthread_mutex_unlock(&con->mutex);
+    pthread_mutex_unlock(&con->send_mutex);
 
     if(err == RT_NO_CONNECTION)
     {
@@ -957,7 +960,7 @@ rtConnection_SendBinaryResponse(rtConnection con, rtMessageHeader const* request
   if (!con)
     return rtErrorFromErrno(EINVAL);
 
-  pthread_mutex_lock(&con->mutex);
+  pthread_mutex_lock(&con->send_mutex);
 #ifdef MSG_ROUNDTRIP_TIME
   err = rtConnection_SendInternal(con, p, n, request_hdr->reply_topic, request_hdr->topic,
     rtMessageFlags_Response|rtMessageFlags_RawBinary, request_hdr->sequence_number, request_hdr->T1, request_hdr->T2, request_hdr->T3);
@@ -966,7 +969,7 @@ rtConnection_SendBinaryResponse(rtConnection con, rtMessageHeader const* request
     rtMessageFlags_Response|rtMessageFlags_RawBinary, request_hdr->sequence_number, 0, 0, 0);
 #endif
 
-  pthread_mutex_unlock(&con->mutex);
+  pthread_mutex_unlock(&con->send_mutex);
   return err;
 }
 
@@ -1001,15 +1004,17 @@ rtConnection_SendRequestInternal(rtConnection con, uint8_t const* pReq, uint32_t
     queue_entry.response = NULL;
 
     rtList_PushFront(con->pending_requests_list, (void*)&queue_entry, &listItem);
+    pthread_mutex_unlock(&con->mutex);
+
+    pthread_mutex_lock(&con->send_mutex);
     err = rtConnection_SendInternal(con, p, n, topic, con->inbox_name, rtMessageFlags_Request | flags, sequence_number, 0, 0, 0);
-    if (err != RT_OK)
+    pthread_mutex_unlock(&con->send_mutex);
+
+    if(err != RT_OK)
     {
       ret = err;
-      goto dequeue_and_continue;
     }
-    pthread_mutex_unlock(&con->mutex);
-
-    if(tid != con->read_tid)
+    else if(tid != con->read_tid)
     {
       rtTime_t timeout_time;
       rtTime_Later(NULL, timeout, &timeout_time);
@@ -1093,7 +1098,6 @@ rtConnection_SendRequestInternal(rtConnection con, uint8_t const* pReq, uint32_t
       rtMessageInfo_Release(queue_entry.response);
     }
 
-dequeue_and_continue:
     rtList_RemoveItem(con->pending_requests_list, listItem, NULL);
     pthread_mutex_unlock(&con->mutex);
     rtSemaphore_Destroy(queue_entry.sem);
-- 
2.43.0


From b0e5927dd3b48a49cb4905bc275599a4d37fba55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:29 +0000
Subject: [PATCH 04/46] fix: message listeners shared route ids and could be
 called after they were freed

Subscription ids are chosen by each provider, so two raw-data subscriptions of one
process could have the same id, and one's handler got the other's messages. Give each
listener on the shared connection an id of its own, match it when a route is removed,
and hand the connection a key instead of a pointer to a context that a concurrent
rbusMessage_RemoveListener frees.
---
 src/rbus/rbus_message.c  | 219 ++++++++++++++++++++++++---------------
 src/rtmessage/rtrouted.c |   3 +-
 2 files changed, 140 insertions(+), 82 deletions(-)

diff --git a/src/rbus/rbus_message.c b/src/rbus/rbus_message.c
index 4197fa7..91719cf 100644
--- a/src/rbus/rbus_message.c
+++ b/src/rbus/rbus_message.c
@@ -45,7 +45,7 @@
 
 static pthread_mutex_t gMutex = PTHREAD_MUTEX_INITIALIZER;
 
-typedef struct
+typedef struct _rbusMessageHandlerContext
 {
     rbusHandle_t          handle;
     char*                 expression;
@@ -53,8 +53,16 @@ typedef struct
     void*                 userData;
     rtConnection          connection;
     uint32_t              subscriptionId;
+    uint32_t              routeId;    /* id of the listener on its connection */
+    uint32_t              key;        /* what the connection holds instead of a pointer to this context */
+    struct _rbusMessageHandlerContext* next;
 } rbusMessageHandlerContext_t;
 
+/* every live context. A message can still be on its way to a listener that is being removed,
+   so the connection is given a key, which is looked up here, and never a pointer. */
+static rbusMessageHandlerContext_t* gContexts = NULL;
+static uint32_t gNextKey = 0x40000000; /* clear of the listener ids of rtConnection (from 10000) and of providers (from 3) */
+
 rbusError_t rtError_to_rBusError(rtError e)
 {
     rbusError_t err;
@@ -72,9 +80,25 @@ rbusError_t rtError_to_rBusError(rtError e)
 
 static void rtMessage_CallbackHandler(rtMessageHeader const* hdr, uint8_t const* buff, uint32_t n, void* userData)
 {
-    rbusMessageHandlerContext_t* ctx = (rbusMessageHandlerContext_t*)userData;
-    if((!ctx)||(!hdr))
+    rbusMessageHandlerContext_t ctx = {0};
+    rbusMessageHandlerContext_t* it;
+
+    if(!hdr)
         return;
+
+    RBUS_MESSAGE_MUTEX_LOCK();
+    for(it = gContexts; it; it = it->next)
+    {
+        if(it->key == (uint32_t)(uintptr_t)userData)
+        {
+            ctx = *it;
+            break;
+        }
+    }
+    RBUS_MESSAGE_MUTEX_UNLOCK();
+    if(!it)
+        return; /* the listener was removed */
+
     // if this is request, the sender wants confirmation of receipt
     // do that before dispatching application callback
     if (rtMessageHeader_IsRequest(hdr))
@@ -82,119 +106,138 @@ static void rtMessage_CallbackHandler(rtMessageHeader const* hdr, uint8_t const*
         uint8_t res = 0;
         uint32_t resLength = (uint32_t) sizeof(res);
 
-        rtError e = rtConnection_SendBinaryResponse(ctx->connection, hdr, &res, resLength, 2000);
+        rtError e = rtConnection_SendBinaryResponse(ctx.connection, hdr, &res, resLength, 2000);
         if (e != RT_OK)
         {
             RBUSLOG_WARN("error sending response for confirmed receipt. %s", rtStrError(e));
         }
     }
 
-    if (ctx->handler)
+    if (ctx.handler)
     {
         rbusMessage_t message;
         message.topic = hdr->topic;
         message.data = buff;
         message.length = n;
 
-        ctx->handler(ctx->handle, &message, ctx->userData);
+        ctx.handler(ctx.handle, &message, ctx.userData);
     }
 }
 
-static void cleanupContext(void * p)
+/* take a context off both lists. caller holds the mutex and frees the context */
+static void detachContext(rbusHandle_t handle, rbusMessageHandlerContext_t* ctx)
 {
-    rbusMessageHandlerContext_t* ctx = (rbusMessageHandlerContext_t*)p;
-    if(ctx){
-        if(ctx->expression)
-            free(ctx->expression);
-        free(ctx);
+    rbusMessageHandlerContext_t** it;
+
+    rtVector_RemoveItem(handle->messageCallbacks, ctx, NULL);
+    for(it = &gContexts; *it; it = &(*it)->next)
+    {
+        if(*it == ctx)
+        {
+            *it = ctx->next;
+            break;
+        }
     }
 }
 
-static int compareContextExpression(const void *left, const void *right)
+static void freeContext(rbusMessageHandlerContext_t* ctx)
 {
-    if((!left)||(!right))
-        return -1;
-    return strcmp(((const rbusMessageHandlerContext_t*)left)->expression, (const char*)right);
+    free(ctx->expression);
+    free(ctx);
 }
 
-rbusError_t rbusMessage_AddPrivateListener(
+static rbusError_t addListener(
     rbusHandle_t handle,
+    rtConnection con,
     char const* expression,
+    char const* topic,
     rbusMessageHandler_t handler,
     void* userData,
-    uint32_t subscriptionId)
+    uint32_t subscriptionId,
+    bool isPrivate)
 {
-    VERIFY_NULL(handle);
-    VERIFY_NULL(expression);
-
-    char rawDataTopic[RBUS_MAX_NAME_LENGTH] = {0};
-
-    rtConnection myConn = rbuscore_FindClientPrivateConnection(expression);
-    if (NULL == myConn)
-    {
-        return RBUS_ERROR_DIRECT_CON_NOT_EXIST;
-    }
-
     rbusMessageHandlerContext_t* ctx = rt_malloc(sizeof(rbusMessageHandlerContext_t));
     ctx->handle = handle;
     ctx->expression = strdup(expression);
     ctx->handler = handler;
     ctx->userData = userData;
-    ctx->connection = myConn;
+    ctx->connection = con;
     ctx->subscriptionId = subscriptionId;
     RBUS_MESSAGE_MUTEX_LOCK();
+    ctx->key = gNextKey++;
+    /* subscription ids are given out by each provider, so two listeners of this process can have the same one:
+       on the shared connection the route needs an id of its own */
+    ctx->routeId = isPrivate ? subscriptionId : ctx->key;
+    ctx->next = gContexts;
+    gContexts = ctx;
     rtVector_PushBack(handle->messageCallbacks, ctx);
-
-    snprintf(rawDataTopic, RBUS_MAX_NAME_LENGTH, "%d.%s", subscriptionId, expression);
-    rtError e = rtConnection_AddListenerWithId(myConn, rawDataTopic, subscriptionId, &rtMessage_CallbackHandler, ctx);
+    uint32_t routeId = ctx->routeId;
+    void* key = (void*)(uintptr_t)ctx->key;
     RBUS_MESSAGE_MUTEX_UNLOCK();
+
+    rtError e = rtConnection_AddListenerWithId(con, topic, routeId, &rtMessage_CallbackHandler, key);
     if (e != RT_OK)
     {
         RBUSLOG_WARN("rtConnection_AddListenerWithId:%s", rtStrError(e));
+        RBUS_MESSAGE_MUTEX_LOCK();
+        detachContext(handle, ctx);
+        RBUS_MESSAGE_MUTEX_UNLOCK();
+        freeContext(ctx);
         return RBUS_ERROR_BUS_ERROR;
     }
 
     return RBUS_ERROR_SUCCESS;
 }
 
-rbusError_t rbusMessage_AddListener(
+static rbusError_t removeListener(
     rbusHandle_t handle,
+    rtConnection con,
     char const* expression,
-    rbusMessageHandler_t handler,
-    void* userData,
+    char const* topic,
     uint32_t subscriptionId)
 {
-    VERIFY_NULL(handle);
-    VERIFY_NULL(expression);
-    rtConnection con = ((struct _rbusHandle*)handle)->m_connection;
+    rbusMessageHandlerContext_t* ctx = NULL;
+    size_t i;
 
-    rbusMessageHandlerContext_t* ctx = rt_malloc(sizeof(rbusMessageHandlerContext_t));
-    ctx->handle = handle;
-    ctx->expression = strdup(expression);
-    ctx->handler = handler;
-    ctx->userData = userData;
-    ctx->connection = con;
-    ctx->subscriptionId = subscriptionId;
     RBUS_MESSAGE_MUTEX_LOCK();
-    rtVector_PushBack(handle->messageCallbacks, ctx);
-
-    rtError e = rtConnection_AddListenerWithId(con, expression, subscriptionId, &rtMessage_CallbackHandler, ctx);
+    for (i = 0; i < rtVector_Size(handle->messageCallbacks); ++i)
+    {
+        rbusMessageHandlerContext_t* it = rtVector_At(handle->messageCallbacks, i);
+        if (it->connection == con && it->subscriptionId == subscriptionId && !strcmp(it->expression, expression))
+        {
+            ctx = it;
+            detachContext(handle, ctx);
+            break;
+        }
+    }
     RBUS_MESSAGE_MUTEX_UNLOCK();
+    if (!ctx)
+    {
+        RBUSLOG_WARN("no listener for %s", expression);
+        return RBUS_ERROR_BUS_ERROR;
+    }
+
+    rtError e = rtConnection_RemoveListenerWithId(con, topic, ctx->routeId);
+    freeContext(ctx);
     if (e != RT_OK)
     {
-        RBUSLOG_WARN("rtConnection_AddListenerWithId:%s", rtStrError(e));
+        RBUSLOG_WARN("rtConnection_RemoveListenerWithId:%s", rtStrError(e));
         return RBUS_ERROR_BUS_ERROR;
     }
 
     return RBUS_ERROR_SUCCESS;
 }
 
-rbusError_t rbusMessage_RemovePrivateListener(
+rbusError_t rbusMessage_AddPrivateListener(
     rbusHandle_t handle,
     char const* expression,
+    rbusMessageHandler_t handler,
+    void* userData,
     uint32_t subscriptionId)
 {
     VERIFY_NULL(handle);
+    VERIFY_NULL(expression);
+
     char rawDataTopic[RBUS_MAX_NAME_LENGTH] = {0};
 
     rtConnection myConn = rbuscore_FindClientPrivateConnection(expression);
@@ -204,18 +247,39 @@ rbusError_t rbusMessage_RemovePrivateListener(
     }
 
     snprintf(rawDataTopic, RBUS_MAX_NAME_LENGTH, "%d.%s", subscriptionId, expression);
-    RBUS_MESSAGE_MUTEX_LOCK();
-    rtVector_RemoveItemByCompare(handle->messageCallbacks, rawDataTopic, compareContextExpression, cleanupContext);
+    return addListener(handle, myConn, expression, rawDataTopic, handler, userData, subscriptionId, true);
+}
 
-    rtError e = rtConnection_RemoveListenerWithId(myConn, rawDataTopic, subscriptionId);
-    RBUS_MESSAGE_MUTEX_UNLOCK();
-    if (e != RT_OK)
+rbusError_t rbusMessage_AddListener(
+    rbusHandle_t handle,
+    char const* expression,
+    rbusMessageHandler_t handler,
+    void* userData,
+    uint32_t subscriptionId)
+{
+    VERIFY_NULL(handle);
+    VERIFY_NULL(expression);
+    rtConnection con = ((struct _rbusHandle*)handle)->m_connection;
+
+    return addListener(handle, con, expression, expression, handler, userData, subscriptionId, false);
+}
+
+rbusError_t rbusMessage_RemovePrivateListener(
+    rbusHandle_t handle,
+    char const* expression,
+    uint32_t subscriptionId)
+{
+    VERIFY_NULL(handle);
+    char rawDataTopic[RBUS_MAX_NAME_LENGTH] = {0};
+
+    rtConnection myConn = rbuscore_FindClientPrivateConnection(expression);
+    if (NULL == myConn)
     {
-        RBUSLOG_WARN("rtConnection_RemoveListenerWithId:%s", rtStrError(e));
-        return RBUS_ERROR_BUS_ERROR;
+        return RBUS_ERROR_DIRECT_CON_NOT_EXIST;
     }
 
-    return RBUS_ERROR_SUCCESS;
+    snprintf(rawDataTopic, RBUS_MAX_NAME_LENGTH, "%d.%s", subscriptionId, expression);
+    return removeListener(handle, myConn, expression, rawDataTopic, subscriptionId);
 }
 
 rbusError_t rbusMessage_RemoveListener(
@@ -226,18 +290,7 @@ rbusError_t rbusMessage_RemoveListener(
     VERIFY_NULL(handle);
     rtConnection con = ((struct _rbusHandle*)handle)->m_connection;
 
-    RBUS_MESSAGE_MUTEX_LOCK();
-    rtVector_RemoveItemByCompare(handle->messageCallbacks, expression, compareContextExpression, cleanupContext);
-
-    rtError e = rtConnection_RemoveListenerWithId(con, expression, subscriptionId);
-    RBUS_MESSAGE_MUTEX_UNLOCK();
-    if (e != RT_OK)
-    {
-        RBUSLOG_WARN("rtConnection_RemoveListenerWithId:%s", rtStrError(e));
-        return RBUS_ERROR_BUS_ERROR;
-    }
-
-    return RBUS_ERROR_SUCCESS;
+    return removeListener(handle, con, expression, expression, subscriptionId);
 }
 
 rbusError_t rbusMessage_RemoveAllListeners(
@@ -245,22 +298,26 @@ rbusError_t rbusMessage_RemoveAllListeners(
 {
     VERIFY_NULL(handle);
     rtConnection con = ((struct _rbusHandle*)handle)->m_connection;
-    int i, n;
 
-    RBUS_MESSAGE_MUTEX_LOCK();
-    for (i = 0, n = rtVector_Size(handle->messageCallbacks); i < n; ++i)
+    for (;;)
     {
-        rbusMessageHandlerContext_t* ctx = rtVector_At(handle->messageCallbacks, i);
-        VERIFY_NULL(ctx);
-        rtError e = rtConnection_RemoveListenerWithId(con, ctx->expression, ctx->subscriptionId);
+        rbusMessageHandlerContext_t* ctx = NULL;
+        RBUS_MESSAGE_MUTEX_LOCK();
+        if (rtVector_Size(handle->messageCallbacks) > 0)
+        {
+            ctx = rtVector_At(handle->messageCallbacks, 0);
+            detachContext(handle, ctx);
+        }
+        RBUS_MESSAGE_MUTEX_UNLOCK();
+        if (!ctx)
+            break;
+        rtError e = rtConnection_RemoveListenerWithId(con, ctx->expression, ctx->routeId);
         if (e != RT_OK)
         {
             RBUSLOG_WARN("rbusMessage_RemoveAllListener %s :%s", ctx->expression, rtStrError(e));
-        }    
-        free(ctx->expression);
-        free(ctx);
+        }
+        freeContext(ctx);
     }
-    RBUS_MESSAGE_MUTEX_UNLOCK();
     return RBUS_ERROR_SUCCESS;
 }
 
diff --git a/src/rtmessage/rtrouted.c b/src/rtmessage/rtrouted.c
index 6c3b96b..2960e57 100644
--- a/src/rtmessage/rtrouted.c
+++ b/src/rtmessage/rtrouted.c
@@ -794,7 +794,8 @@ rtRouted_OnMessageSubscribe(rtConnectedClient* sender, rtMessageHeader* hdr, uin
         {
           rtRouteEntry* route = (rtRouteEntry *) rtVector_At(gRoutes, i);
 
-          if((route->subscription) && (0 == strncmp(route->expression, expression, RTMSG_MAX_EXPRESSION_LEN)) && (route->subscription->client == sender))
+          if((route->subscription) && (0 == strncmp(route->expression, expression, RTMSG_MAX_EXPRESSION_LEN)) && (route->subscription->client == sender) &&
+             (route->subscription->id == route_id))
           {
             rtRouted_ClearRoute(route);
             route_removed = 1;
-- 
2.43.0


From 494f238a0f707bed760919b3103ff9aaa9cb7e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:29 +0000
Subject: [PATCH 05/46] fix: a raw-data handler ran on a subscription that was
 being freed

---
 src/rbus/rbus.c | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index a063aad..0baeaa8 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -5233,9 +5233,24 @@ static void _subscribe_rawdata_handler(rbusHandle_t handle, rbusMessage_t* msg,
         if (ptmp)
         {
             HANDLE_EVENTSUBS_MUTEX_LOCK(handle);
-            rbusEventSubscriptionInternal_t *subInternal = rbusEventSubscription_find(handleInfo->eventSubs,
-                    ptmp->eventName, ptmp->filter, ptmp->interval, ptmp->duration, true);
-            if (subInternal && subInternal->dirty)
+            /*the event can have been on its way when its subscription was removed*/
+            rbusEventSubscriptionInternal_t *subInternal = NULL;
+            size_t i;
+            for (i = 0; i < rtVector_Size(handleInfo->eventSubs); ++i)
+            {
+                rbusEventSubscriptionInternal_t *it = (rbusEventSubscriptionInternal_t *)rtVector_At(handleInfo->eventSubs, i);
+                if (it && it->sub == ptmp)
+                {
+                    subInternal = it;
+                    break;
+                }
+            }
+            if (!subInternal)
+            {
+                HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
+                return;
+            }
+            if (subInternal->dirty)
             {
                 errorcode =  _rbus_event_unsubscribe(handle, subInternal);
                 if(errorcode == RBUS_ERROR_DESTINATION_NOT_FOUND)
@@ -5258,13 +5273,14 @@ static void _subscribe_rawdata_handler(rbusHandle_t handle, rbusMessage_t* msg,
                     return;
                 }
             }
+            /*as for other events, the subscription stays locked while its handler runs*/
+            rbusEventHandlerRawData_t eventHandlerFuncPtr = ptmp->handler;
+            if(eventHandlerFuncPtr)
+                (eventHandlerFuncPtr)(handle, &event, ptmp);
+            else
+                RBUSLOG_WARN("eventHandlerFuncPtr is NULL");
             HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
         }
-        rbusEventHandlerRawData_t eventHandlerFuncPtr = ptmp->handler;
-        if(eventHandlerFuncPtr)
-            (eventHandlerFuncPtr)(handle, &event, ptmp);
-        else
-            RBUSLOG_WARN("eventHandlerFuncPtr is NULL");
     }
 }
 
-- 
2.43.0


From a3ec4b58b3e6a41e6c657c16580d45811dc706e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:37 +0000
Subject: [PATCH 06/46] fix: a client's unsubscribe removed other clients'
 topics from the router

When a client unregistered an element or unsubscribed, the router removed the
topic node and the routes of other clients with it.  Remove only that client's
route from that topic.
---
 src/rtmessage/rtRoutingTree.c | 136 +++++++++++++++++++++-------------
 src/rtmessage/rtRoutingTree.h |   4 +-
 src/rtmessage/rtrouted.c      |   7 +-
 3 files changed, 93 insertions(+), 54 deletions(-)

diff --git a/src/rtmessage/rtRoutingTree.c b/src/rtmessage/rtRoutingTree.c
index 84230ab..4fd54b4 100644
--- a/src/rtmessage/rtRoutingTree.c
+++ b/src/rtmessage/rtRoutingTree.c
@@ -161,37 +161,7 @@ static void tokenizeExpression(const char* expression)
     workTokenCount = i;
 }
 
-static void removeTopicFromRoutes(rtRoutingTree rt, rtTreeTopic* topic)
-{
-    rtListItem childItem;
-    rtTreeTopic* childTopic;
-    rtListItem routeItem;
-    rtTreeRoute* route;
-    size_t size;
-    rtList_GetFront(topic->routeList, &routeItem);
-    while(routeItem)
-    {
-        rtListItem_GetData(routeItem, (void**)&route);
-
-        rtList_RemoveItemByCompare(route->topicList, topic, rtList_ComparePointer, NULL);
-        /*if the route's topicList has become empty, then remove the whole route*/
-        rtList_GetSize(route->topicList, &size);
-        if(size == 0)
-            rtList_RemoveItemByCompare(rt->routeList, route, rtList_ComparePointer, freeTreeRoute);
-
-        rtListItem_GetNext(routeItem, &routeItem);
-    }
-
-    rtList_GetFront(topic->childList, &childItem);
-    while(childItem)
-    {
-        rtListItem_GetData(childItem, (void**)&childTopic);
-        removeTopicFromRoutes(rt, childTopic);
-        rtListItem_GetNext(childItem, &childItem);
-    }
-}
-
-static rtTreeTopic* getChildByName(rtRoutingTree rt, rtTreeTopic* parent, const char* name, int create, int* created, int *error, int remove)
+static rtTreeTopic* getChildByName(rtRoutingTree rt, rtTreeTopic* parent, const char* name, int create, int* created, int *error)
 {
     rtListItem item;
 
@@ -205,13 +175,6 @@ static rtTreeTopic* getChildByName(rtRoutingTree rt, rtTreeTopic* parent, const
         rtListItem_GetData(item, (void**)&treeTopic);
         if(strcmp(treeTopic->name, name) == 0)
         {
-            /* we can remove if its an exact match*/
-            if(remove)
-            {
-              removeTopicFromRoutes(rt, treeTopic);
-              rtList_RemoveItem(parent->childList, item, freeTreeTopic);
-              return NULL;
-            }
             return treeTopic;
         }
         /* if a query contains a row instance id, a square bracket alias, or wildcard * 
@@ -228,8 +191,6 @@ static rtTreeTopic* getChildByName(rtRoutingTree rt, rtTreeTopic* parent, const
         */
         else if(treeTopic->name[0] == '{' && (isdigit(name[0]) || name[0] == '[' || name[0] == '*'))
         {
-            /* note that we don't handle the remove flag here because you should never create or remove instance ids themselves in the tree
-               however, as a safeguard we only do remove in the above branch when name is an exact match*/
             return treeTopic;
         }
         /* Registration of property element as sibling to a table and vice versa not supported as per TR369/TR181 standard.*/
@@ -507,7 +468,7 @@ rtError rtRoutingTree_AddTopicRoute(rtRoutingTree rt, const char* topicPath, con
     int error = 0;
     for(i = 0; i < workTokenCount; ++i)
     {
-        topic = getChildByName(rt, topic, workTokens[i].name, 1/*create missing topic*/, &isCreated, &error, 0);
+        topic = getChildByName(rt, topic, workTokens[i].name, 1/*create missing topic*/, &isCreated, &error);
         if (error)
         {
             rtLog_Debug("Rejecting data registraion as per standard");
@@ -515,7 +476,10 @@ rtError rtRoutingTree_AddTopicRoute(rtRoutingTree rt, const char* topicPath, con
         }
     }
 
-    if (err_on_dup && (0 == isCreated) && (topic->routeList) && (0 != strcmp (topicPath, "_RTROUTED.ADVISORY")))
+    size_t numRoutes = 0;
+    if (topic->routeList)
+        rtList_GetSize(topic->routeList, &numRoutes);
+    if (err_on_dup && (0 == isCreated) && (numRoutes > 0) && (0 != strcmp (topicPath, "_RTROUTED.ADVISORY")))
     {
         /* Controlled Error log will be printed in rtrouted */
         rtLog_Debug("Rejecting a duplicate registraion");
@@ -548,7 +512,7 @@ void rtRoutingTree_GetTopicRoutes(rtRoutingTree rt, const char* topic, rtList* r
 
     for(i = 0; i < workTokenCount; ++i)
     {
-        treeTopic = getChildByName(rt, treeTopic, workTokens[i].name, 0, NULL, NULL, 0);
+        treeTopic = getChildByName(rt, treeTopic, workTokens[i].name, 0, NULL, NULL);
 
         if(!treeTopic)
             return;
@@ -612,7 +576,7 @@ void rtRoutingTree_GetTopicRoutes(rtRoutingTree rt, const char* topic, rtList* r
           However, "Foo" doesn't have the route.  "Foo.{i}" has the route we want.
           So we need to search for the "{i}" child here and use its route.
         */
-        rtTreeTopic* curlyChild = getChildByName(rt, treeTopic, "{i}", 0, NULL, NULL, 0);
+        rtTreeTopic* curlyChild = getChildByName(rt, treeTopic, "{i}", 0, NULL, NULL);
         if(curlyChild)
         {
           *routes = curlyChild->routeList;
@@ -656,24 +620,94 @@ void rtRoutingTree_RemoveRoute(rtRoutingTree rt, const void* route)
     rtList_RemoveItem(rt->routeList, routeItem, freeTreeRoute);
 }
 
-void rtRoutingTree_RemoveTopic(rtRoutingTree rt, const char* topic)
+static int hasPointer(rtList list, void* ptr)
+{
+    rtListItem item = NULL;
+    if(!list)
+        return 0;
+    for(rtList_GetFront(list, &item); item; rtListItem_GetNext(item, &item))
+    {
+        void* ptr2 = NULL;
+        rtListItem_GetData(item, &ptr2);
+        if(ptr == ptr2)
+            return 1;
+    }
+    return 0;
+}
+
+/* Whether any topic below this one has the route */
+static int isRouteBelowTopic(rtTreeTopic* topic, rtTreeRoute* route)
+{
+    rtListItem item = NULL;
+    if(!topic->childList)
+        return 0;
+    for(rtList_GetFront(topic->childList, &item); item; rtListItem_GetNext(item, &item))
+    {
+        rtTreeTopic* child;
+        rtListItem_GetData(item, (void**)&child);
+        if(hasPointer(child->routeList, route) || hasPointer(child->routeList2, route))
+            return 1;
+    }
+    return 0;
+}
+
+/*
+    Removes the route from this one topic. Other routes of the topic and the topics below it stay.
+    A topic that is left with no route and no child is removed, and so are its parents.
+ */
+void rtRoutingTree_RemoveTopicRoute(rtRoutingTree rt, const char* topicPath, const void* routeData)
 {
     int i;
-    rtTreeTopic* treeTopic = rt->topicRoot;
+    int error = 0;
+    rtTreeTopic* topic = rt->topicRoot;
+    rtTreeRoute* route;
 
-    rtLog_Debug("%s topic=%s", __FUNCTION__, topic);
+    rtLog_Debug("%s topic=%s", __FUNCTION__, topicPath);
 
-    tokenizeExpression(topic);
+    if(validateExpression(topicPath) < 0)
+        return;
+
+    route = getTreeRoute(rt, routeData, NULL);
+    if(!route)
+        return;
+
+    tokenizeExpression(topicPath);
     if(workTokenCount == 0)
         return;
 
     for(i = 0; i < workTokenCount; ++i)
     {
-        treeTopic = getChildByName(rt, treeTopic, workTokens[i].name, 0, NULL, NULL, i == workTokenCount-1);
+        topic = getChildByName(rt, topic, workTokens[i].name, 0, NULL, &error);
 
-        if(!treeTopic)
+        if(!topic || error)
             return;
     }
+
+    if(!hasPointer(topic->routeList, route))
+        return;
+
+    rtList_RemoveItemByCompare(topic->routeList, route, rtList_ComparePointer, NULL);
+    if(!hasPointer(topic->routeList, route))
+        rtList_RemoveItemByCompare(route->topicList, topic, rtList_ComparePointer, NULL);
+
+    while(topic->parent)
+    {
+        rtTreeTopic* parent = topic->parent;
+        size_t numRoutes = 0;
+        size_t numChildren = 0;
+
+        if(topic->routeList)
+            rtList_GetSize(topic->routeList, &numRoutes);
+        if(topic->childList)
+            rtList_GetSize(topic->childList, &numChildren);
+        if(numRoutes == 0 && numChildren == 0)
+            rtList_RemoveItemByCompare(parent->childList, topic, rtList_ComparePointer, freeTreeTopic);
+
+        if(parent->routeList2 && !isRouteBelowTopic(parent, route))
+            rtList_RemoveItemByCompare(parent->routeList2, route, rtList_ComparePointer, NULL);
+
+        topic = parent;
+    }
 }
 
 void rtRoutingTree_ResolvePartialPath(rtRoutingTree rt, const char* partialPath, rtList topics)
@@ -687,7 +721,7 @@ void rtRoutingTree_ResolvePartialPath(rtRoutingTree rt, const char* partialPath,
 
     for(i = 0; i < workTokenCount; ++i)
     {
-        treeTopic = getChildByName(rt, treeTopic, workTokens[i].name, 0, NULL, NULL, 0);
+        treeTopic = getChildByName(rt, treeTopic, workTokens[i].name, 0, NULL, NULL);
         
         if(!treeTopic)
             return;
diff --git a/src/rtmessage/rtRoutingTree.h b/src/rtmessage/rtRoutingTree.h
index 1ba21a1..b7379c2 100644
--- a/src/rtmessage/rtRoutingTree.h
+++ b/src/rtmessage/rtRoutingTree.h
@@ -39,7 +39,7 @@ rtRoutingTree:
             rtRoutingTree_GetTopicRoutes        <= rtree_lookup_value
             rtRoutingTree_ResolvePartialPath    <= rtree_get_uniquely_resolvable_endpoints_for_expression
             rtRoutingTree_RemoveRoute           <= rtree_remove_nodes_matching_value
-            rtRoutingTree_RemoveTopic           <= rtree_remove_value
+            rtRoutingTree_RemoveTopicRoute      <= rtree_remove_value
             rtRoutingTree_LogStats              <= rtree_get_stats
             rtRoutingTree_LogTopicTree          <= rtree_traverse_and_log
         API new functions:
@@ -157,7 +157,7 @@ rtError rtRoutingTree_AddTopicRoute(rtRoutingTree rt, const char* topic, const v
 void rtRoutingTree_GetTopicRoutes(rtRoutingTree rt, const char* topic, rtList* routes);
 void rtRoutingTree_GetRouteTopics(rtRoutingTree rt, const void* route, rtList* topics);
 void rtRoutingTree_RemoveRoute(rtRoutingTree rt, const void* route);
-void rtRoutingTree_RemoveTopic(rtRoutingTree rt, const char* topic);
+void rtRoutingTree_RemoveTopicRoute(rtRoutingTree rt, const char* topic, const void* route);
 void rtRoutingTree_ResolvePartialPath(rtRoutingTree rt, const char* partialPath, rtList topics);
 void rtRoutingTree_LogStats(rtRoutingTree rt);
 void rtRoutingTree_LogTopicTree(rtRoutingTree rt);
diff --git a/src/rtmessage/rtrouted.c b/src/rtmessage/rtrouted.c
index 2960e57..e619011 100644
--- a/src/rtmessage/rtrouted.c
+++ b/src/rtmessage/rtrouted.c
@@ -806,7 +806,12 @@ rtRouted_OnMessageSubscribe(rtConnectedClient* sender, rtMessageHeader* hdr, uin
         {
           //Not a route. Is it an alias?
           rtLog_Debug("Removing alias %s", expression);
-          rtRoutingTree_RemoveTopic(gRoutingTree, expression);
+          for (i = 0; i < rtVector_Size(gRoutes); i++)
+          {
+            rtRouteEntry* route = (rtRouteEntry *) rtVector_At(gRoutes, i);
+            if(route->subscription && (route->subscription->client == sender) && (route->subscription->id == route_id))
+              rtRoutingTree_RemoveTopicRoute(gRoutingTree, expression, (void *)route);
+          }
         }
       }
     }
-- 
2.43.0


From 926c7685221227c9c3a944ac56155db2b9be0b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:37 +0000
Subject: [PATCH 07/46] fix: rbus_close freed objects that other threads still
 used and could deadlock

Requests, events and the client-disconnect advisory run on the connection's callback thread while rbus_close
freed the handle, its elements and subscriptions, and closing the connection joined that thread with locks held.
Listeners are removed and waited for first; the handle list has its own lock; a later open installs the
disconnect listener again.
---
 src/core/rbuscore.c          | 44 +++++++++-------
 src/rbus/rbus.c              | 68 ++++++++++++-------------
 src/rbus/rbus_handle.c       | 98 +++++++++++++++++++++---------------
 src/rtmessage/rtConnection.c | 30 +++++++++++
 src/rtmessage/rtConnection.h | 10 ++++
 5 files changed, 155 insertions(+), 95 deletions(-)

diff --git a/src/core/rbuscore.c b/src/core/rbuscore.c
index 29d87b5..c5e246e 100644
--- a/src/core/rbuscore.c
+++ b/src/core/rbuscore.c
@@ -382,25 +382,15 @@ static void perform_init()
     _rbuscore_directconnection_load_from_cache();
 }
 
-static void perform_cleanup()
+/*must be called without holding the lock*/
+static void cancel_event_subscriptions()
 {
     size_t i, sz;
 
-    RBUSCORELOG_DEBUG("Performing cleanup");
-
-    lock();
-
-    rtVector_Destroy(g_server_objects, server_object_destroy);
-
-    rtVector_Destroy(gListOfServerDirectDMLs, _freePrivateServer);
-    _rbuscore_destroy_clientPrivate_connections();
-    rtVector_Destroy(gListOfClientDirectDMLs, rtVector_Cleanup_Free);
-
     sz = rtVector_Size(g_event_subscriptions_for_client);
     if(sz>0)
     {
         RBUSCORELOG_INFO("Cancelling active event subscriptions.");
-        unlock();
         for(i = 0; i < sz; ++i)
         {
             size_t i2, sz2;
@@ -413,11 +403,23 @@ static void perform_cleanup()
                 send_subscription_request(sub->object, event->name, false, NULL, NULL, 0, false, NULL, false);
             }
         }
-        lock();
     }
-    rtVector_Destroy(g_event_subscriptions_for_client, client_subscription_destroy);
+}
 
-    unlock();
+/*must be called while no thread uses the connection*/
+static void perform_cleanup()
+{
+    RBUSCORELOG_DEBUG("Performing cleanup");
+
+    rtVector_Destroy(g_server_objects, server_object_destroy);
+    g_server_objects = NULL;
+    rtVector_Destroy(gListOfServerDirectDMLs, _freePrivateServer);
+    gListOfServerDirectDMLs = NULL;
+    _rbuscore_destroy_clientPrivate_connections();
+    rtVector_Destroy(gListOfClientDirectDMLs, rtVector_Cleanup_Free);
+    gListOfClientDirectDMLs = NULL;
+    rtVector_Destroy(g_event_subscriptions_for_client, client_subscription_destroy);
+    g_event_subscriptions_for_client = NULL;
 }
 
 
@@ -665,6 +667,7 @@ rbusCoreError_t rbus_closeBrokerConnection()
     if(NULL == g_connection)
     {
         RBUSCORELOG_INFO("No connection exist to close.");
+        unlock();
         return RBUSCORE_ERROR_INVALID_STATE;
     }
     if(1 < rtVector_Size(g_server_objects))
@@ -674,7 +677,11 @@ rbusCoreError_t rbus_closeBrokerConnection()
         return RBUSCORE_SUCCESS;
     }
     rbus_releaseOpenTelemetryContext();
-    perform_cleanup();
+    unlock();
+
+    cancel_event_subscriptions();
+
+    /*joins the callback thread, which can need the lock*/
     err = rtConnection_Destroy(g_connection);
     if(RT_OK != err)
     {
@@ -683,7 +690,8 @@ rbusCoreError_t rbus_closeBrokerConnection()
     }
     g_connection = NULL;
     g_run_event_client_dispatch = false;
-    unlock();
+    g_advisory_listener_installed = false;
+    perform_cleanup();
 
     pthread_mutex_destroy(&g_mutex);
     pthread_mutex_destroy(&g_directServMutex);
@@ -967,6 +975,8 @@ rbusCoreError_t rbus_unregisterObj(const char * object_name)
         RBUSCORELOG_ERROR("rtConnection_RemoveListener %s failed: Err=%d", object_name, err);
         return RBUSCORE_ERROR_GENERAL;
     }
+    /*a request for this object can be in progress on the callback thread*/
+    rtConnection_WaitCallback(g_connection);
 
     lock();
     server_object_t obj = get_object(object_name);
diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 0baeaa8..4e6bb31 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -122,6 +122,8 @@ typedef struct _rbusEventSubscriptionInternal
 extern char* __progname;
 //******************************* GLOBALS *****************************************//
 static pthread_mutex_t gMutex = PTHREAD_MUTEX_INITIALIZER;
+static uint32_t sDisConnHandler;
+static uint32_t sClosing; /*number of rbus_close calls that are giving up their handle; guarded by gMutex*/
 
 //********************************************************************************//
 
@@ -1354,9 +1356,7 @@ static void unregisterTableRow (rbusHandle_t handle, elementNode* rowInstElem)
 
 static void _client_disconnect_callback_handler(const char * listener)
 {
-    LockMutex();
     rbusHandleList_ClientDisconnect(listener);
-    UnlockMutex();
 }
 
 void _subscribe_async_callback_handler(rbusHandle_t handle, rbusEventSubscription_t* subscription, rbusError_t error, uint32_t subscriptionId)
@@ -1438,9 +1438,7 @@ static int _master_event_callback_handler(char const* sender, char const* eventN
 
     rbusEventData_updateFromMessage(&event, &filter, &interval, &duration, &componentId, message);
 
-    LockMutex();
     handleInfo = rbusHandleList_GetByComponentID(componentId);
-    UnlockMutex();
 
     if(!handleInfo)
     {
@@ -3046,17 +3044,17 @@ rbusError_t rbus_open(rbusHandle_t* handle, char const* componentName)
 
 exit_error2:
 
-    if(rbus_getConnection() && rbusHandleList_IsEmpty())
+    if(rbus_getConnection() && rbusHandleList_IsEmpty() && !sClosing)
         if((err = rbus_unregisterClientDisconnectHandler()) != RBUSCORE_SUCCESS)
             RBUSLOG_ERROR("(%s): unregisterClientDisconnectHandler error %d", componentName, err);
 
-    if(rbus_getConnection() && rbusHandleList_IsEmpty())
+    if(rbus_getConnection() && rbusHandleList_IsEmpty() && !sClosing)
         if((err = rbus_closeBrokerConnection()) != RBUSCORE_SUCCESS)
             RBUSLOG_ERROR("(%s): closeBrokerConnection error %d", componentName, err);
 
 exit_error1:
 
-    if(rbusHandleList_IsEmpty())
+    if(rbusHandleList_IsEmpty() && !sClosing)
     {
         _rbus_open_pre_initialize(false);
     }
@@ -3074,8 +3072,6 @@ exit_error0:
     return ret;
 }
 
-static uint32_t sDisConnHandler;
-
 rbusError_t rbus_openDirect(rbusHandle_t handle, rbusHandle_t* myDirectHandle, char const* pParameterName)
 {
     rtConnection myDirectCon = NULL;
@@ -3173,11 +3169,18 @@ rbusError_t rbus_close(rbusHandle_t handle)
 
     RBUSLOG_INFO("rbus close for (%s)", handleInfo->componentName);
 
-    LockMutex();
     char filename[RTMSG_HEADER_MAX_TOPIC_LENGTH];
     snprintf(filename, RTMSG_HEADER_MAX_TOPIC_LENGTH-1, "%s%d_%d", "/tmp/.rbus/", getpid(), handleInfo->componentId);
     remove(filename);
 
+    /* Stop requests and events first: nothing that a handler may be using is freed before the handler has returned,
+     * and no lock is held while waiting for it. */
+    if((err = rbus_unregisterObj(handleInfo->componentName)) != RBUSCORE_SUCCESS)
+    {
+        RBUSLOG_ERROR("(%s): unregisterObj error %d", handleInfo->componentName, err);
+        ret = RBUS_ERROR_INVALID_HANDLE;
+    }
+
     HANDLE_EVENTSUBS_MUTEX_LOCK(handle);
     if(handleInfo->eventSubs)
     {
@@ -3188,8 +3191,7 @@ rbusError_t rbus_close(rbusHandle_t handle)
         {
             rbusEventSubscriptionInternal_t* subInternal = NULL;
             subInternal = (rbusEventSubscriptionInternal_t*)rtVector_At(handleInfo->eventSubs, 0);
-            ret = _rbus_event_unsubscribe(handle, subInternal);
-            if (ret == RBUS_ERROR_DESTINATION_NOT_FOUND)
+            if (_rbus_event_unsubscribe(handle, subInternal) == RBUS_ERROR_DESTINATION_NOT_FOUND)
             {
                 rtVector_RemoveItem(handleInfo->eventSubs, subInternal, rbusEventSubscriptionInternal_free);
             }
@@ -3197,20 +3199,25 @@ rbusError_t rbus_close(rbusHandle_t handle)
             {
                 rbusEventSubscriptionInternal_free(subInternal);
             }
-            ret = RBUS_ERROR_SUCCESS;
         }
-        rtVector_Destroy(handleInfo->eventSubs, NULL);
-        handleInfo->eventSubs = NULL;
     }
     HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
 
     if (handleInfo->messageCallbacks)
     {
         rbusMessage_RemoveAllListeners(handle);
-        rtVector_Destroy(handleInfo->messageCallbacks, NULL);
-        handleInfo->messageCallbacks = NULL;
     }
 
+    rbusAsyncSubscribe_CloseHandle(handle);
+
+    LockMutex();
+    sClosing++; /*keeps the connection*/
+    UnlockMutex();
+    rbusHandleList_Remove(handleInfo);
+    rtConnection_WaitCallback(handleInfo->m_connection); /*it may have found the handle before*/
+
+    rbusValueChange_CloseHandle(handle);//called before freeElementNode below
+
     if(handleInfo->subscriptions != NULL)
     {
         HANDLE_SUBS_MUTEX_LOCK(handle);
@@ -3219,45 +3226,32 @@ rbusError_t rbus_close(rbusHandle_t handle)
         handleInfo->subscriptions = NULL;
     }
 
-    rbusValueChange_CloseHandle(handle);//called before freeElementNode below
-
-    rbusAsyncSubscribe_CloseHandle(handle);
-
     if(handleInfo->elementRoot)
     {
         freeElementNode(handleInfo->elementRoot);
         handleInfo->elementRoot = NULL;
     }
 
-    if((err = rbus_unregisterObj(handleInfo->componentName)) != RBUSCORE_SUCCESS)
-    {
-        RBUSLOG_ERROR("(%s): unregisterObj error %d", handleInfo->componentName, err);
-        ret = RBUS_ERROR_INVALID_HANDLE;
-    }
+    rtVector_Destroy(handleInfo->eventSubs, NULL);
+    rtVector_Destroy(handleInfo->messageCallbacks, NULL);
 
     componentName = handleInfo->componentName;
-    handleInfo->componentName=NULL;
     ERROR_CHECK(pthread_mutex_destroy(&handleInfo->handle_eventSubsMutex));
     ERROR_CHECK(pthread_mutex_destroy(&handleInfo->handle_subsMutex));
-    rbusHandleList_Remove(handleInfo);
+    free(handleInfo);
 
-    if(rbusHandleList_IsEmpty())
+    LockMutex();
+    sClosing--;
+    if(rbusHandleList_IsEmpty() && !sClosing)
     {
         RBUSLOG_DEBUG("(%s): closing broker connection", componentName);
 
-#if 0
-        //calling before closing connection
-        if((err = rbus_unregisterClientDisconnectHandler()) != RBUSCORE_SUCCESS)
-        {
-            RBUSLOG_ERROR("(%s): rbus_unregisterClientDisconnectHandler error %d", componentName, err);
-            ret = RBUS_ERROR_BUS_ERROR;
-        }
-#endif
         if((err = rbus_closeBrokerConnection()) != RBUSCORE_SUCCESS)
         {
             RBUSLOG_ERROR("(%s): rbus_closeBrokerConnection error %d", componentName, err);
             ret = RBUS_ERROR_BUS_ERROR;
         }
+        sDisConnHandler = 0; /*went with the connection*/
 
         _rbus_open_pre_initialize(false);
     }
diff --git a/src/rbus/rbus_handle.c b/src/rbus/rbus_handle.c
index 3025718..30c0d01 100644
--- a/src/rbus/rbus_handle.c
+++ b/src/rbus/rbus_handle.c
@@ -18,6 +18,7 @@
 */
 #include "rbus_handle.h"
 #include <string.h>
+#include <pthread.h>
 #include <rbuscore.h>
 #include <rtMemory.h>
 #include <unistd.h>
@@ -46,74 +47,94 @@ static rtVector gHandleList = NULL;
 }
 extern char *__progname;
 
+/*guards gHandleList only; nothing else is called while it is held*/
+static pthread_mutex_t gHandleListMutex = PTHREAD_MUTEX_INITIALIZER;
+#define LIST_LOCK() pthread_mutex_lock(&gHandleListMutex)
+#define LIST_UNLOCK() pthread_mutex_unlock(&gHandleListMutex)
+
 bool rbusHandleList_IsValidHandle(struct _rbusHandle* handle)
 {
-    struct _rbusHandle* tmphandle = NULL;
+    bool found = false;
+    size_t i;
     if (handle == NULL)
     {
         return false;
     }
-    int i;
-    if(gHandleList)
+    LIST_LOCK();
+    for(i = 0; i < rtVector_Size(gHandleList); i++)
     {
-        int len = rtVector_Size(gHandleList);
-        for(i = 0; i < len; i++)
+        if((struct _rbusHandle*)rtVector_At(gHandleList, i) == handle)
         {
-            tmphandle = (struct _rbusHandle*)rtVector_At(gHandleList, i);
-            if(tmphandle == handle)
-            {
-                return true;
-            }
+            found = true;
+            break;
         }
     }
-    return false;
+    LIST_UNLOCK();
+    return found;
 }
 
 void rbusHandleList_Add(struct _rbusHandle* handle)
 {
     VERIFY_NULL(handle,return);
+    RBUSLOG_DEBUG("adding %p", handle);
+    LIST_LOCK();
     if(!gHandleList)
         rtVector_Create(&gHandleList);
-    RBUSLOG_DEBUG("adding %p", handle);
     rtVector_PushBack(gHandleList, handle);
+    LIST_UNLOCK();
 }
 
+/*the handle itself is left to the caller*/
 void rbusHandleList_Remove(struct _rbusHandle* handle)
 {
     VERIFY_NULL(handle,return);
     RBUSLOG_DEBUG("removing %p", handle);
-    rtVector_RemoveItem(gHandleList, handle, rtVector_Cleanup_Free);
+    LIST_LOCK();
+    rtVector_RemoveItem(gHandleList, handle, NULL);
     if(rtVector_Size(gHandleList) == 0)
     {
         rtVector_Destroy(gHandleList, NULL);
         gHandleList = NULL;
-        return;
     }
+    LIST_UNLOCK();
 }
 
 bool rbusHandleList_IsEmpty()
 {
-    return gHandleList == NULL;
+    bool empty;
+    LIST_LOCK();
+    empty = (gHandleList == NULL);
+    LIST_UNLOCK();
+    return empty;
 }
 
 bool rbusHandleList_IsFull()
 {
-    RBUSLOG_DEBUG("size=%zu", rtVector_Size(gHandleList));
-    return (gHandleList && rtVector_Size(gHandleList) >= RBUS_MAX_HANDLES);
+    bool full;
+    LIST_LOCK();
+    full = (gHandleList && rtVector_Size(gHandleList) >= RBUS_MAX_HANDLES);
+    LIST_UNLOCK();
+    return full;
 }
 
+/*called on the connection's callback thread: rbus_close waits for it before it frees a handle*/
 void rbusHandleList_ClientDisconnect(char const* clientListener)
 {
+    struct _rbusHandle* handles[RBUS_MAX_HANDLES];
     size_t i;
-    size_t len;
+    size_t len = 0;
     VERIFY_NULL(clientListener,return);
-    if(gHandleList)/*this could theoretically be null if advisory event comes in between the time rbus_close calls 
-                  rbusHandleList_Remove and rbus_unregisterClientDisconnectHandler*/
+    LIST_LOCK();
+    for(i = 0; i < rtVector_Size(gHandleList) && len < RBUS_MAX_HANDLES; i++)
+    {
+        handles[len++] = (struct _rbusHandle*)rtVector_At(gHandleList, i);
+    }
+    LIST_UNLOCK();
+    if(len)
     {
-        len = rtVector_Size(gHandleList);
         for(i = 0; i < len; i++)
         {
-            struct _rbusHandle* handle = (struct _rbusHandle*)rtVector_At(gHandleList, i);
+            struct _rbusHandle* handle = handles[i];
             HANDLE_SUBS_MUTEX_LOCK(handle);
             if(handle->subscriptions)
             {
@@ -131,42 +152,37 @@ void rbusHandleList_ClientDisconnect(char const* clientListener)
 struct _rbusHandle* rbusHandleList_GetByComponentID(int32_t componentId)
 {
     size_t i;
-    size_t len;
     struct _rbusHandle* handle = NULL;
-    if(gHandleList)
+    LIST_LOCK();
+    for(i = 0; i < rtVector_Size(gHandleList); i++)
     {
-        len = rtVector_Size(gHandleList);
-        for(i = 0; i < len; i++)
+        struct _rbusHandle* tmp = (struct _rbusHandle*)rtVector_At(gHandleList, i);
+        if(tmp->componentId == componentId)
         {
-            handle = (struct _rbusHandle*)rtVector_At(gHandleList, i);
-            if(handle->componentId == componentId)
-            {
-                break;
-            }
+            handle = tmp;
+            break;
         }
     }
+    LIST_UNLOCK();
     return handle;
 }
 
 struct _rbusHandle* rbusHandleList_GetByName(char const* componentName)
 {
     size_t i;
-    size_t len;
     struct _rbusHandle* handle = NULL;
     VERIFY_NULL(componentName,return NULL);
-    if(gHandleList)
+    LIST_LOCK();
+    for(i = 0; i < rtVector_Size(gHandleList); i++)
     {
-        len = rtVector_Size(gHandleList);
-        for(i = 0; i < len; i++)
+        struct _rbusHandle* tmp = (struct _rbusHandle*)rtVector_At(gHandleList, i);
+        if(strcmp(tmp->componentName, componentName) == 0)
         {
-            struct _rbusHandle* tmp = (struct _rbusHandle*)rtVector_At(gHandleList, i);
-            if(strcmp(tmp->componentName, componentName) == 0)
-            {
-                handle = tmp;
-                break;
-            }
+            handle = tmp;
+            break;
         }
     }
+    LIST_UNLOCK();
     return handle;
 }
 
diff --git a/src/rtmessage/rtConnection.c b/src/rtmessage/rtConnection.c
index 82b6475..5865bda 100644
--- a/src/rtmessage/rtConnection.c
+++ b/src/rtmessage/rtConnection.c
@@ -121,6 +121,9 @@ struct _rtConnection
   pthread_t               callback_thread;
   pthread_mutex_t         callback_message_mutex;
   pthread_cond_t          callback_message_cond;
+  int                     callback_running; /*a listener callback is being executed; guarded by mutex*/
+  uint32_t                callback_count;
+  pthread_cond_t          callback_done_cond;
   pthread_mutex_t         reconnect_mutex;
   rtTime_t                reader_reconnect_time;
   rtTime_t                sender_reconnect_time;
@@ -542,6 +545,7 @@ rtConnection_CreateInternal(rtConnection* con, char const* application_name, cha
     return RT_ERROR;
   }
   pthread_cond_init(&c->callback_message_cond, NULL);
+  pthread_cond_init(&c->callback_done_cond, NULL);
   for (i = 0; i < RTMSG_LISTENERS_MAX; ++i)
   {
     c->listeners[i].in_use = 0;
@@ -759,6 +763,7 @@ rtConnection_Destroy(rtConnection con)
     pthread_mutex_destroy(&con->send_mutex);
     pthread_mutex_destroy(&con->callback_message_mutex);
     pthread_cond_destroy(&con->callback_message_cond);
+    pthread_cond_destroy(&con->callback_done_cond);
     pthread_mutex_destroy(&con->reconnect_mutex);
 
     free(con);
@@ -1367,6 +1372,21 @@ rtConnection_RemoveListenerWithId(rtConnection con, char const* expression, uint
   return 0;
 }
 
+void
+rtConnection_WaitCallback(rtConnection con)
+{
+  uint32_t count;
+
+  if (!con || pthread_equal(pthread_self(), con->callback_thread))
+    return;
+
+  pthread_mutex_lock(&con->mutex);
+  count = con->callback_count;
+  while (con->callback_running && con->callback_count == count)
+    pthread_cond_wait(&con->callback_done_cond, &con->mutex);
+  pthread_mutex_unlock(&con->mutex);
+}
+
 rtError
 rtConnection_AddAlias(rtConnection con, char const* existing, const char *alias)
 {
@@ -1837,6 +1857,12 @@ static void * rtConnection_CallbackThread(void *data)
         }
       }
 
+      if(callback)
+      {
+        con->callback_running = 1;
+        con->callback_count++;
+      }
+
       pthread_mutex_unlock(&con->mutex);
 
       /*process the message without locking any mutex*/
@@ -1845,6 +1871,10 @@ static void * rtConnection_CallbackThread(void *data)
           //rtLog_Error("rtConnection_CallbackThread before callback");
           callback(&msginfo->header, msginfo->data, msginfo->dataLength, msginfo->userData);
           //rtLog_Error("rtConnection_CallbackThread after callback");
+          pthread_mutex_lock(&con->mutex);
+          con->callback_running = 0;
+          pthread_cond_broadcast(&con->callback_done_cond);
+          pthread_mutex_unlock(&con->mutex);
       }
       else
       {
diff --git a/src/rtmessage/rtConnection.h b/src/rtmessage/rtConnection.h
index feb1700..34b54a7 100644
--- a/src/rtmessage/rtConnection.h
+++ b/src/rtmessage/rtConnection.h
@@ -219,6 +219,16 @@ rtConnection_RemoveListener(rtConnection con, char const* expression);
 rtError
 rtConnection_RemoveListenerWithId(rtConnection con, char const* expression, uint32_t expressionId);
 
+/**
+ * Wait until the listener callback that is being executed, if any, has returned.
+ * A listener that was removed before this call is not used any more afterwards.
+ * Returns at once when called from a listener callback.
+ * The caller must not hold a lock that a callback may need.
+ * @param con
+ */
+void
+rtConnection_WaitCallback(rtConnection con);
+
 /**
  * Add an alias to an existing listener
  * @param con
-- 
2.43.0


From 7c94dcf9c9055c43a8de39b2ba3e80b332221c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:11 +0000
Subject: [PATCH 08/46] fix: setMulti reported success or left properties set
 when one of its providers failed

A provider that could not be reached was forgotten when a later one succeeded, nothing was reverted when the
failure was a missing element, a missing set handler or a transport error, and only the last provider's
properties were reverted.
---
 src/rbus/rbus.c | 172 +++++++++++++++++++++++++++++-------------------
 1 file changed, 106 insertions(+), 66 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 4e6bb31..efa3792 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -1575,25 +1575,8 @@ static void _set_callback_handler (rbusHandle_t handle, rbusMessage request, rbu
                         {
                             RBUSLOG_WARN("Set Failed for %s; Component Owner returned Error", paramName);
                             pFailedElement = paramName;
-                            if(rollBack == 1)
-                            {
-                                RBUSLOG_DEBUG("Reverting because set failed for this param:%s",pFailedElement);
-                                /*===========< Rollback old values >============*/
-                                rbusProperty_t prevProp = cachedData;
-                                while(prevProp)
-                                {
-                                    char const* prevParamName = rbusProperty_GetName(prevProp);
-                                    el = retrieveInstanceElement(handleInfo->elementRoot, prevParamName);
-                                    ELM_PRIVATE_LOCK(el);
-                                    err = el->cbTable.setHandler(handle, prevProp, &opts);
-                                    ELM_PRIVATE_UNLOCK(el);
-                                    prevProp = rbusProperty_GetNext(prevProp);
-                                    if(err != RBUS_ERROR_SUCCESS)
-                                    {
-                                        RBUSLOG_WARN("Reverting paramValues of %s to initial values failed",prevParamName);
-                                    }
-                                }
-                            }
+                            if(currentData)
+                                rbusProperty_Release(currentData);
                             break;
                         }
                         else
@@ -1618,8 +1601,6 @@ static void _set_callback_handler (rbusHandle_t handle, rbusMessage request, rbu
                         RBUSLOG_WARN("Set Failed for %s; No Handler found", paramName);
                         rc = RBUS_ERROR_NOT_WRITABLE;
                         pFailedElement = paramName;
-                        if(cachedData)
-                           rbusProperty_Release(cachedData);
                         break;
                     }
                 }
@@ -1631,6 +1612,30 @@ static void _set_callback_handler (rbusHandle_t handle, rbusMessage request, rbu
                     break;
                 }
             }
+            if(rc != RBUS_ERROR_SUCCESS && rollBack == 1)
+            {
+                RBUSLOG_DEBUG("Reverting because set failed for this param:%s",pFailedElement);
+                /*===========< Rollback old values >============*/
+                rbusProperty_t prevProp = cachedData;
+                while(prevProp)
+                {
+                    char const* prevParamName = rbusProperty_GetName(prevProp);
+                    el = retrieveInstanceElement(handleInfo->elementRoot, prevParamName);
+                    if(el && el->cbTable.setHandler)
+                    {
+                        ELM_PRIVATE_LOCK(el);
+                        err = el->cbTable.setHandler(handle, prevProp, &opts);
+                        ELM_PRIVATE_UNLOCK(el);
+                    }
+                    else
+                        err = RBUS_ERROR_ELEMENT_DOES_NOT_EXIST;
+                    prevProp = rbusProperty_GetNext(prevProp);
+                    if(err != RBUS_ERROR_SUCCESS)
+                    {
+                        RBUSLOG_WARN("Reverting paramValues of %s to initial values failed",prevParamName);
+                    }
+                }
+            }
         }
         else
         {
@@ -1652,10 +1657,11 @@ exit:
     if (rc == RBUS_ERROR_SUCCESS)
     {
         rbusPropertyList_appendToMessage(cachedData, *response);
-        rbusProperty_Release(cachedData);
     }
     else if(pFailedElement)
         rbusMessage_SetString(*response, pFailedElement);
+    if(cachedData)
+        rbusProperty_Release(cachedData);
 
     if(pProperties)
     {
@@ -4130,6 +4136,7 @@ rbusError_t _setMultiInternal(rbusHandle_t handle, uint32_t numProps, rbusProper
     rbusProperty_t current;
     uint32_t cachedNumProps = 0;
     rbusProperty_t cachedProperties = NULL;
+    rbusError_t revertError = RBUS_ERROR_SUCCESS;
     VERIFY_NULL(handle);
     if(timeout == 0)
         timeout = rbusHandle_FetchSetMultiTimeout(handle);
@@ -4186,6 +4193,26 @@ rbusError_t _setMultiInternal(rbusHandle_t handle, uint32_t numProps, rbusProper
 
         /*discover which components have some ownership of the params*/
         errorcode = rbus_discoverComponentName(handle, numProps, pParamNames, &numComponents, &componentNames);
+        if(!rollBack && errorcode == RBUS_ERROR_SUCCESS && numProps != (uint32_t)numComponents)
+        {
+            /*a component is gone since its properties were set: find the others, one by one*/
+            for(i = 0; i < (uint32_t)numComponents; ++i)
+                free(componentNames[i]);
+            if(componentNames)
+                free(componentNames);
+            componentNames = rt_try_calloc(numProps, sizeof(char*));
+            for(i = 0; componentNames && i < numProps; ++i)
+            {
+                char** names = NULL;
+                int count = 0;
+                rbus_discoverComponentName(handle, 1, &pParamNames[i], &count, &names);
+                if(count == 1)
+                    componentNames[i] = names[0];
+                if(names)
+                    free(names);
+            }
+            numComponents = componentNames ? (int)numProps : 0;
+        }
         if(errorcode == RBUS_ERROR_SUCCESS && numProps == (uint32_t)numComponents)
         {
 #if 0
@@ -4201,7 +4228,16 @@ rbusError_t _setMultiInternal(rbusHandle_t handle, uint32_t numProps, rbusProper
                 if(!componentNames[i] || !componentNames[i][0])
                 {
                     RBUSLOG_ERROR("Cannot find component for %s", rbusProperty_GetName(current));
-                    errorcode = RBUS_ERROR_INVALID_INPUT;
+                    if(rollBack)
+                        errorcode = RBUS_ERROR_INVALID_INPUT;
+                    else
+                    {
+                        /*its owner is gone: revert the others*/
+                        revertError = RBUS_ERROR_DESTINATION_NOT_FOUND;
+                        if(componentNames[i])
+                            free(componentNames[i]);
+                        componentNames[i] = NULL;
+                    }
                 }
             }
 
@@ -4290,58 +4326,28 @@ rbusError_t _setMultiInternal(rbusHandle_t handle, uint32_t numProps, rbusProper
                         legacyRetCode = (rbusLegacyReturn_t) ret;
                         if((errorcode == RBUS_ERROR_SUCCESS) || (legacyRetCode == RBUS_LEGACY_ERR_SUCCESS))
                         {
+                            rbusProperty_t batchProperties = NULL;
                             errorcode = RBUS_ERROR_SUCCESS;
                             RBUSLOG_DEBUG("Successfully Set the Value");
-                            rbusPropertyList_initFromMessage(&cachedProperties, setResponse);
-                            pFailedElement = NULL;
+                            rbusPropertyList_initFromMessage(&batchProperties, setResponse);
+                            if(cachedProperties == NULL)
+                                cachedProperties = batchProperties;
+                            else if(batchProperties)
+                            {
+                                rbusProperty_Append(cachedProperties, batchProperties);
+                                rbusProperty_Release(batchProperties);
+                            }
                         }
                         else
                         {
-                            if(pFailedElement)
-                            {
-                                rbusMessage_GetString(setResponse, &pErrorReason);
-                                *pFailedElement = strdup((char*)pErrorReason);
-                                RBUSLOG_WARN("Failed to Set the Value For %s", *pFailedElement);
-                            }
-                            else
-                            {
-                                rbusMessage_GetString(setResponse, &pErrorReason);
-                                RBUSLOG_WARN("Failed to Set the Value for %s", pErrorReason);
-                            }
-                            if(rollBack)
-                            {
-                                char *pTempFailedElement = NULL;
-                                rbusSetOptions_t revertOpts;
-                                if ((opts) && (opts->sessionId != 0))
-                                {
-                                    revertOpts.commit = true;
-                                    revertOpts.sessionId= opts->sessionId;
-                                }
-                                else
-                                {
-                                    revertOpts.commit = true;
-                                    revertOpts.sessionId = 0;
-                                }
-                                cachedNumProps = 0;
-                                cachedNumProps = rbusProperty_Count(cachedProperties);
-                                rbusError_t result;
-                                result = _setMultiInternal(handle, cachedNumProps, cachedProperties, &revertOpts, (int)timeout, &pTempFailedElement, false);
-                                if(result == RBUS_ERROR_SUCCESS)
-                                    RBUSLOG_DEBUG("Successfully reverted back the values");
-                                else if((result != RBUS_ERROR_SUCCESS) && (pTempFailedElement))
-                                {
-                                    RBUSLOG_WARN("Failed to rollback %s\n",pTempFailedElement);
-                                    free(pTempFailedElement);
-                                }
-                            }
+                            rbusMessage_GetString(setResponse, &pErrorReason);
+                            RBUSLOG_WARN("Failed to Set the Value for %s", pErrorReason ? pErrorReason : firstParamName);
+                            if(pFailedElement && pErrorReason)
+                                *pFailedElement = strdup(pErrorReason);
                             if(legacyRetCode > RBUS_LEGACY_ERR_SUCCESS)
                             {
                                 errorcode = CCSPError_to_rbusError(legacyRetCode);
                             }
-                            if (componentName)
-                                free(componentName);
-                            rbusMessage_Release(setResponse);
-                            break;
                         }
 
                         /* Release the reponse message */
@@ -4349,12 +4355,46 @@ rbusError_t _setMultiInternal(rbusHandle_t handle, uint32_t numProps, rbusProper
                     }
                     if (componentName)
                         free(componentName);
+
+                    if(errorcode != RBUS_ERROR_SUCCESS && !rollBack)
+                    {
+                        /* This is the revert itself: go on with the other components */
+                        revertError = errorcode;
+                    }
+                    else if(errorcode != RBUS_ERROR_SUCCESS)
+                    {
+                        /* The set failed as a whole: revert what the previous batches have set */
+                        if(cachedProperties)
+                        {
+                            char *pTempFailedElement = NULL;
+                            rbusSetOptions_t revertOpts;
+                            rbusError_t result;
+                            revertOpts.commit = true;
+                            revertOpts.sessionId = opts ? opts->sessionId : 0;
+                            cachedNumProps = rbusProperty_Count(cachedProperties);
+                            result = _setMultiInternal(handle, cachedNumProps, cachedProperties, &revertOpts, (int)timeout, &pTempFailedElement, false);
+                            if(result == RBUS_ERROR_SUCCESS)
+                                RBUSLOG_DEBUG("Successfully reverted back the values");
+                            else
+                                RBUSLOG_WARN("Failed to rollback %s\n", pTempFailedElement ? pTempFailedElement : "");
+                            if(pTempFailedElement)
+                                free(pTempFailedElement);
+                        }
+                        break;
+                    }
                 }
                 else
                 {
                     break;
                 }
             }
+            for(i = 0; i < numProps; ++i)
+            {
+                if(componentNames[i])
+                    free(componentNames[i]);
+            }
+            if(revertError != RBUS_ERROR_SUCCESS)
+                errorcode = revertError;
         }
         else
         {
-- 
2.43.0


From 45326a7542785350475a15d264e75feca54803ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:18 +0000
Subject: [PATCH 09/46] fix: rbus_getExt reported success with part of the
 values when one provider refused

---
 src/rbus/rbus.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index efa3792..6d10dcf 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -3867,6 +3867,7 @@ rbusError_t rbus_getExt(rbusHandle_t handle, int paramCount, char const** pParam
                         if((errorcode = _getExt_response_parser(response, &batchNumVals, &batchResult)) != RBUS_ERROR_SUCCESS)
                         {
                             RBUSLOG_ERROR("error parsing response %d", errorcode);
+                            break;
                         }
                         else
                         {
@@ -3889,6 +3890,20 @@ rbusError_t rbus_getExt(rbusHandle_t handle, int paramCount, char const** pParam
                     break;
                 }
             }
+
+            if(errorcode != RBUS_ERROR_SUCCESS)
+            {
+                /*no partial result*/
+                for(i = 0; i < paramCount; ++i)
+                {
+                    if(componentNames[i])
+                        free(componentNames[i]);
+                }
+                if(*retProperties)
+                    rbusProperty_Release(*retProperties);
+                *retProperties = NULL;
+                *numValues = 0;
+            }
         }
         else
         {
-- 
2.43.0


From 6003c0046b34a266cf088b038ae3937d89b8d4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:15 +0000
Subject: [PATCH 10/46] fix: setMulti must not revert a property whose old
 value could not be read

The handlers of the existing tests get a property without a value otherwise.
---
 src/rbus/rbus.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 6d10dcf..5e26132 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -1561,6 +1561,13 @@ static void _set_callback_handler (rbusHandle_t handle, rbusMessage request, rbu
                                 ELM_PRIVATE_LOCK(el);
                                 rc = el->cbTable.getHandler(handle, currentData, &options);
                                 ELM_PRIVATE_UNLOCK(el);
+                                /*without an old value there is nothing to go back to*/
+                                rbusValue_t oldValue = rbusProperty_GetValue(currentData);
+                                if(!oldValue || rbusValue_GetType(oldValue) == RBUS_NONE)
+                                {
+                                    rbusProperty_Release(currentData);
+                                    currentData = NULL;
+                                }
                            }
                            else
                                 RBUSLOG_INFO("%s is a write only parameter",paramName);
-- 
2.43.0


From 930a04337378f710497ed541457b4d2121621d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:03 +0000
Subject: [PATCH 11/46] fix: a client and the router could block each other
 forever when a late response met large messages

The reader thread reported the response itself; that send can block until the router has read what the client
sent before, while the router waits for the reader.
---
 src/rtmessage/rtConnection.c | 50 ++++++++++++++++++++++++++----------
 1 file changed, 37 insertions(+), 13 deletions(-)

diff --git a/src/rtmessage/rtConnection.c b/src/rtmessage/rtConnection.c
index 5865bda..3c7356a 100644
--- a/src/rtmessage/rtConnection.c
+++ b/src/rtmessage/rtConnection.c
@@ -1657,20 +1657,21 @@ rtConnection_Read(rtConnection con, int32_t timeout)
       }
       pthread_mutex_unlock(&con->mutex);
 #ifdef MSG_ROUNDTRIP_TIME
-      /* The listItem is not present in the pending_requests_list, as it is been removed from the list because of request timeout */
+      /* The listItem is not present in the pending_requests_list, as it is been removed from the list because of request timeout.
+         The callback thread reports it: a send can block until the router has read what this client sent before, and the
+         router may itself be blocked until this thread has read what it sent */
       if(listItem == NULL)
       {
-        rtMessage m;
-        rtMessage_Create(&m);
-        rtMessage_SetInt32(m, "T1", msginfo->header.T1);
-        rtMessage_SetInt32(m, "T2", msginfo->header.T2);
-        rtMessage_SetInt32(m, "T3", msginfo->header.T3);
-        rtMessage_SetInt32(m, "T4", msginfo->header.T4);
-        rtMessage_SetInt32(m, "T5", msginfo->header.T5);
-        rtMessage_SetString(m, "topic", msginfo->header.topic);
-        rtMessage_SetString(m, "reply_topic", msginfo->header.reply_topic);
-        rtConnection_SendMessage(con, m, RTROUTED_TRANSACTION_TIME_INFO);
-        rtMessage_Release(m);
+        size_t size;
+        pthread_mutex_lock(&con->callback_message_mutex);
+        rtList_GetSize(con->callback_message_list, &size);
+        if(size <= MAX_ALLOWED_MESSAGES / 2)
+        {
+          rtList_PushBack(con->callback_message_list, msginfo, NULL);
+          msginfo = NULL; /*the callback thread will release it*/
+          pthread_cond_signal(&con->callback_message_cond);
+        }
+        pthread_mutex_unlock(&con->callback_message_mutex);
       }
 #endif
     }
@@ -1789,6 +1790,23 @@ void check_router(rtConnection con)
   was blocked, it could not read the response message the SendRequest 
   was waiting on.  
 */
+#ifdef MSG_ROUNDTRIP_TIME
+static void rtConnection_SendTransactionTimes(rtConnection con, rtMessageHeader const* header)
+{
+  rtMessage m;
+  rtMessage_Create(&m);
+  rtMessage_SetInt32(m, "T1", header->T1);
+  rtMessage_SetInt32(m, "T2", header->T2);
+  rtMessage_SetInt32(m, "T3", header->T3);
+  rtMessage_SetInt32(m, "T4", header->T4);
+  rtMessage_SetInt32(m, "T5", header->T5);
+  rtMessage_SetString(m, "topic", header->topic);
+  rtMessage_SetString(m, "reply_topic", header->reply_topic);
+  rtConnection_SendMessage(con, m, RTROUTED_TRANSACTION_TIME_INFO);
+  rtMessage_Release(m);
+}
+#endif
+
 static void * rtConnection_CallbackThread(void *data)
 {
   rtConnection con = (rtConnection)data;
@@ -1847,7 +1865,7 @@ static void * rtConnection_CallbackThread(void *data)
       }
 
       /*find the listener for the msg*/
-      for (i = 0; i < RTMSG_LISTENERS_MAX; ++i)
+      for (i = 0; i < RTMSG_LISTENERS_MAX && !(msginfo->header.flags & rtMessageFlags_Response); ++i)
       {
         if (con->listeners[i].in_use && (con->listeners[i].subscription_id == msginfo->header.control_data))
         {
@@ -1876,6 +1894,12 @@ static void * rtConnection_CallbackThread(void *data)
           pthread_cond_broadcast(&con->callback_done_cond);
           pthread_mutex_unlock(&con->mutex);
       }
+#ifdef MSG_ROUNDTRIP_TIME
+      else if(msginfo->header.flags & rtMessageFlags_Response)
+      {
+        rtConnection_SendTransactionTimes(con, &msginfo->header);
+      }
+#endif
       else
       {
         //rtLog_Error("rtConnection_CallbackThread no callback found for message");
-- 
2.43.0


From 0ad54c83a78cf4f55e2f6b8a3a283e316ed9dd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:57 +0000
Subject: [PATCH 12/46] fix: removing a table row dropped other consumers'
 subscriptions and wildcard subscriptions

The flag that marks a subscription of the removed row was never reset, so every later subscription in the list
went with it; and a wildcard subscription was dropped with the first row it had matched.
---
 src/rbus/rbus_subscriptions.c | 21 ++++++---------------
 src/rbus/rbus_tokenchain.c    | 12 ++++++++++++
 src/rbus/rbus_tokenchain.h    |  2 ++
 3 files changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/rbus/rbus_subscriptions.c b/src/rbus/rbus_subscriptions.c
index 4b8a90f..5f96b5e 100644
--- a/src/rbus/rbus_subscriptions.c
+++ b/src/rbus/rbus_subscriptions.c
@@ -319,8 +319,6 @@ void rbusSubscriptions_onElementDeleted(rbusSubscriptions_t subscriptions, eleme
             {
                 rtListItem item, tempitem;
                 rbusSubscription_t* sub;
-                bool val=false;
-                rbusSubscription_t* subscription = NULL;
 
                 rtList_GetFront(subscriptions->subList, &item);
 
@@ -329,6 +327,7 @@ void rbusSubscriptions_onElementDeleted(rbusSubscriptions_t subscriptions, eleme
                 {
                     rtListItem item2;
                     elementNode* inst;
+                    bool removed = false;
 
                     rtListItem_GetNext(item, &tempitem);
                     rtListItem_GetData(item, (void**)&sub);
@@ -344,25 +343,17 @@ void rbusSubscriptions_onElementDeleted(rbusSubscriptions_t subscriptions, eleme
                         {
                             rtList_RemoveItem(sub->instances, item2, NULL);
                             removeElementSubscription(child, sub);
-                            val = true;
+                            removed = true;
                             break;
                         }
                         rtListItem_GetNext(item2, &item2);
                     }
 
-                    /* RDKB-38389 : Removing the instance of the row to be removed from the subscriptions->subList linked list */
-                    if(val)
+                    /* RDKB-38389 : Removing the subscription of a removed row from the subscriptions->subList linked list.
+                       A subscription with a wildcard is not to this row only: it stays, for the other rows and for new ones */
+                    if(removed && !TokenChain_hasWildcard(sub->tokens))
                     {
-                        subscription = rbusSubscriptions_getSubscription(subscriptions, sub->listener, sub->eventName,
-                                sub->componentId, sub->filter, sub->interval, sub->duration, sub->rawData);
-                        if(!subscription)
-                        {
-                            RBUSLOG_INFO("unsubscribing from event which isn't currectly subscribed to event=%s listener=%s", sub->eventName, sub->listener);
-                        }
-                        else
-                        {
-                            rbusSubscriptions_removeSubscription(subscriptions, subscription);
-                        }
+                        rbusSubscriptions_removeSubscription(subscriptions, sub);
                     }
                     item = tempitem;
                 }
diff --git a/src/rbus/rbus_tokenchain.c b/src/rbus/rbus_tokenchain.c
index f86639d..93c42b2 100644
--- a/src/rbus/rbus_tokenchain.c
+++ b/src/rbus/rbus_tokenchain.c
@@ -248,6 +248,18 @@ void TokenChain_destroy(TokenChain* chain)
     free(chain);
 }
 
+bool TokenChain_hasWildcard(TokenChain* chain)
+{
+    Token* tok;
+
+    for(tok = chain ? chain->first : NULL; tok; tok = tok->next)
+    {
+        if(tok->type == TokenWildcard)
+            return true;
+    }
+    return false;
+}
+
 bool TokenChain_match(TokenChain* chain, elementNode* instNode)
 {
     if((!chain)||(!instNode))
diff --git a/src/rbus/rbus_tokenchain.h b/src/rbus/rbus_tokenchain.h
index 6fbd075..475327d 100644
--- a/src/rbus/rbus_tokenchain.h
+++ b/src/rbus/rbus_tokenchain.h
@@ -55,6 +55,8 @@ void TokenChain_destroy(TokenChain* chain);
 
 bool TokenChain_match(TokenChain* chain, elementNode* instNode);
 
+bool TokenChain_hasWildcard(TokenChain* chain);
+
 void TokenChain_print(TokenChain* chain);
 
 #ifdef __cplusplus
-- 
2.43.0


From 05e446e5ce7449e4daecf850d8f697718bc535bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:57 +0000
Subject: [PATCH 13/46] fix: a subscription by alias matched rows that have no
 alias

---
 src/rbus/rbus_tokenchain.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rbus/rbus_tokenchain.c b/src/rbus/rbus_tokenchain.c
index 93c42b2..78ca76a 100644
--- a/src/rbus/rbus_tokenchain.c
+++ b/src/rbus/rbus_tokenchain.c
@@ -327,7 +327,7 @@ bool TokenChain_match(TokenChain* chain, elementNode* instNode)
 #                   endif
                 }
 
-                if(rc != 0)
+                if(!inst->alias || rc != 0)
                 {
                     return false;
                 }
-- 
2.43.0


From 2d39744ee5fda7ee8037b748e2338f5b8e9e816f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:52 +0000
Subject: [PATCH 14/46] fix: the router trusted the lengths in a message
 header: buffer overflow, stall, and a message without payload dropped its
 sender

---
 src/rtmessage/rtMessageHeader.h |  2 ++
 src/rtmessage/rtrouteBase.c     | 24 +++++++++++++++++++-----
 src/rtmessage/rtrouted.c        | 24 +++++++++++++++++++-----
 3 files changed, 40 insertions(+), 10 deletions(-)

diff --git a/src/rtmessage/rtMessageHeader.h b/src/rtmessage/rtMessageHeader.h
index a2bade5..61c33db 100644
--- a/src/rtmessage/rtMessageHeader.h
+++ b/src/rtmessage/rtMessageHeader.h
@@ -41,6 +41,8 @@ extern "C" {
 #define RTMSG_HEADER_MARKER 0xAAAA
 #define RTMESSAGEHEADER_PREAMBLE_LENGTH 6
 #define RTMESSAGEHEADER_HDR_LENGTH_OFFSET 4
+#define RTMESSAGEHEADER_MIN_LENGTH 32 /* the fixed fields, without timestamps */
+#define RTMESSAGEHEADER_MAX_LENGTH (RTMESSAGEHEADER_MIN_LENGTH + 20 + (2 * RTMSG_HEADER_MAX_TOPIC_LENGTH))
 typedef enum
 {
   rtMessageFlags_Request = 0x01,
diff --git a/src/rtmessage/rtrouteBase.c b/src/rtmessage/rtrouteBase.c
index 5f8bd67..6d2aa5d 100644
--- a/src/rtmessage/rtrouteBase.c
+++ b/src/rtmessage/rtrouteBase.c
@@ -18,6 +18,7 @@
 #include <arpa/inet.h>
 #include <errno.h>
 #include <getopt.h>
+#include <limits.h>
 #include <sys/select.h>
 #include <sys/wait.h>
 #include <netinet/in.h>
@@ -387,6 +388,11 @@ rtConnectedClient_Read(rtConnectedClient* clnt, rtRouteEntry* myDirectRoute)
           break;
         }
         rtEncoder_DecodeUInt16(&itr, &header_length);
+        if((header_length < RTMESSAGEHEADER_MIN_LENGTH) || (header_length > RTMESSAGEHEADER_MAX_LENGTH))
+        {
+          rtLog_Warn("Bad header length %u in message from %s", header_length, clnt->ident);
+          return RT_ERROR_PROTOCOL_ERROR;
+        }
         clnt->bytes_to_read += (header_length - RTMESSAGEHEADER_PREAMBLE_LENGTH);
         clnt->state = rtConnectionState_ReadHeader;
       }
@@ -407,6 +413,11 @@ rtConnectedClient_Read(rtConnectedClient* clnt, rtRouteEntry* myDirectRoute)
         if(clnt->header.flags & rtMessageFlags_Tainted)
           clock_gettime(CLOCK_MONOTONIC, &g_entry_exit_timestamps[g_timestamp_index][0]);
 #endif
+        if(clnt->header.payload_length > (uint32_t)(INT_MAX - 2 * clnt->bytes_read))
+        {
+          rtLog_Warn("Bad payload length %u in message from %s", clnt->header.payload_length, clnt->ident);
+          return RT_ERROR_PROTOCOL_ERROR;
+        }
         clnt->bytes_to_read += clnt->header.payload_length;
         clnt->state = rtConnectionState_ReadPayload;
         int incoming_data_size = clnt->bytes_to_read + clnt->bytes_read;
@@ -421,20 +432,23 @@ rtConnectedClient_Read(rtConnectedClient* clnt, rtRouteEntry* myDirectRoute)
           }
           else
           {
-            rtLog_Info("Couldn't not reallocate read buffer to accommodate %d bytes. Message will be dropped.", incoming_data_size);
-            _rtConnection_ReadAndDropBytes(clnt->fd, clnt->header.payload_length);
-            rtConnectedClient_Reset(clnt);
-            break;
+            /* waiting here for the bytes of the message to come and be dropped would stall all other clients */
+            rtLog_Info("Couldn't not reallocate read buffer to accommodate %d bytes. Client will be dropped.", incoming_data_size);
+            return rtErrorFromErrno(ENOMEM);
           }
         }
       }
+      if((clnt->state != rtConnectionState_ReadPayload) || (clnt->bytes_read != clnt->bytes_to_read))
+        break;
     }
-    break;
+    /* fall through: a message without payload is complete */
 
     case rtConnectionState_ReadPayload:
     {
       if (clnt->bytes_read == clnt->bytes_to_read)
       {
+        /* control messages are text; the buffer has room for the terminator */
+        clnt->read_buffer[clnt->bytes_read] = 0;
         _rtdirect_dispatch_message_from_client(clnt, myDirectRoute);
 #ifdef ENABLE_ROUTER_BENCHMARKING
         if(clnt->header.flags & rtMessageFlags_Tainted)
diff --git a/src/rtmessage/rtrouted.c b/src/rtmessage/rtrouted.c
index e619011..2adbe20 100644
--- a/src/rtmessage/rtrouted.c
+++ b/src/rtmessage/rtrouted.c
@@ -40,6 +40,7 @@
 #include <arpa/inet.h>
 #include <errno.h>
 #include <getopt.h>
+#include <limits.h>
 #include <sys/select.h>
 #include <sys/wait.h>
 #include <netinet/in.h>
@@ -1572,6 +1573,11 @@ rtConnectedClient_Read(rtConnectedClient* clnt)
           break;
         }
         rtEncoder_DecodeUInt16(&itr, &header_length);
+        if((header_length < RTMESSAGEHEADER_MIN_LENGTH) || (header_length > RTMESSAGEHEADER_MAX_LENGTH))
+        {
+          rtLog_Warn("Bad header length %u in message from %s", header_length, clnt->ident);
+          return RT_ERROR_PROTOCOL_ERROR;
+        }
         clnt->bytes_to_read += (header_length - RTMESSAGEHEADER_PREAMBLE_LENGTH);
         clnt->state = rtConnectionState_ReadHeader;
       }
@@ -1592,6 +1598,11 @@ rtConnectedClient_Read(rtConnectedClient* clnt)
         if(clnt->header.flags & rtMessageFlags_Tainted)
           clock_gettime(CLOCK_MONOTONIC, &g_entry_exit_timestamps[g_timestamp_index][0]);
 #endif
+        if(clnt->header.payload_length > (uint32_t)(INT_MAX - 2 * clnt->bytes_read))
+        {
+          rtLog_Warn("Bad payload length %u in message from %s", clnt->header.payload_length, clnt->ident);
+          return RT_ERROR_PROTOCOL_ERROR;
+        }
         clnt->bytes_to_read += clnt->header.payload_length;
         clnt->state = rtConnectionState_ReadPayload;
         int incoming_data_size = clnt->bytes_to_read + clnt->bytes_read;
@@ -1606,20 +1617,23 @@ rtConnectedClient_Read(rtConnectedClient* clnt)
           }
           else
           {
-            rtLog_Info("Couldn't not reallocate read buffer to accommodate %d bytes. Message will be dropped.", incoming_data_size);
-            _rtConnection_ReadAndDropBytes(clnt->fd, clnt->header.payload_length);
-            rtConnectedClient_Reset(clnt);
-            break;
+            /* waiting here for the bytes of the message to come and be dropped would stall all other clients */
+            rtLog_Info("Couldn't not reallocate read buffer to accommodate %d bytes. Client will be dropped.", incoming_data_size);
+            return rtErrorFromErrno(ENOMEM);
           }
         }
       }
+      if((clnt->state != rtConnectionState_ReadPayload) || (clnt->bytes_read != clnt->bytes_to_read))
+        break;
     }
-    break;
+    /* fall through: a message without payload is complete */
 
     case rtConnectionState_ReadPayload:
     {
       if (clnt->bytes_read == clnt->bytes_to_read)
       {
+        /* control messages are text; the buffer has room for the terminator */
+        clnt->read_buffer[clnt->bytes_read] = 0;
         rtRouter_DispatchMessageFromClient(clnt);
 #ifdef ENABLE_ROUTER_BENCHMARKING
         if(clnt->header.flags & rtMessageFlags_Tainted)
-- 
2.43.0


From 97f784617140df01ee6716f6b11be0a9278a22c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:31 +0000
Subject: [PATCH 15/46] fix: malformed control messages and topics crashed the
 router

---
 src/rtmessage/rtRoutingTree.c |  6 +++++-
 src/rtmessage/rtrouted.c      | 34 ++++++++++++++++++++++++++--------
 2 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/src/rtmessage/rtRoutingTree.c b/src/rtmessage/rtRoutingTree.c
index 4fd54b4..53161a1 100644
--- a/src/rtmessage/rtRoutingTree.c
+++ b/src/rtmessage/rtRoutingTree.c
@@ -146,8 +146,12 @@ static void tokenizeExpression(const char* expression)
     const char* from = expression;
     char* to = workBuffer;
     workTokenCount = 0;
+    if(strlen(expression) >= MAX_TOKEN_BUFFER_SIZE - 1)
+        return;
     while(*from)
     {
+        if(i >= MAX_TOKENS)
+            return; /* no topic is that deep */
         workTokens[i].name = to;
         
         while(*from && *from != '.')
@@ -453,7 +457,7 @@ rtError rtRoutingTree_AddTopicRoute(rtRoutingTree rt, const char* topicPath, con
     tokenizeExpression(topicPath);
 
     if(workTokenCount == 0)
-        return rc;
+        return *topicPath ? RT_ERROR_INVALID_EXPRESSION : rc; /* too deep, if not empty */
 
     route = getTreeRoute(rt, routeData, NULL);
     if(!route)
diff --git a/src/rtmessage/rtrouted.c b/src/rtmessage/rtrouted.c
index 2adbe20..45eafde 100644
--- a/src/rtmessage/rtrouted.c
+++ b/src/rtmessage/rtrouted.c
@@ -501,7 +501,7 @@ rtRouted_SendMessage(rtMessageHeader * request_hdr, rtMessage message, rtConnect
       rtListItem_GetData(item, (void**)&treeRoute);
       rtListItem_GetNext(item, &item);
       route = treeRoute->route;
-      if(route)
+      if(route && route->subscription) /* the router's own topics have none */
       {
         rtLog_Debug("SendMessage topic=%s expression=%s", request_hdr->topic, route->expression);
         found_dest = 1;
@@ -745,7 +745,7 @@ rtRouted_OnMessageSubscribe(rtConnectedClient* sender, rtMessageHeader* hdr, uin
   uint32_t route_id = 0;
   uint32_t i = 0;
   int32_t add_subscrption = 0;
-  rtMessage m;
+  rtMessage m = NULL;
   rtMessage response = NULL;
   rtError rc = RT_OK;
 
@@ -822,7 +822,8 @@ rtRouted_OnMessageSubscribe(rtConnectedClient* sender, rtMessageHeader* hdr, uin
       rc = RT_ERROR_INVALID_ARG;
     }
   }
-  rtMessage_Release(m);
+  if(m)
+    rtMessage_Release(m);
 
   /* Send Response */
   if(hdr->flags & rtMessageFlags_Request)
@@ -850,6 +851,12 @@ rtRouted_OnMessageHello(rtConnectedClient* sender, rtMessageHeader* hdr, uint8_t
     return;
   }
   rtMessage_GetString(m, "inbox", &inbox);
+  if(0 != validate_string(inbox, RTMSG_MAX_EXPRESSION_LEN))
+  {
+    rtLog_Warn("Bad Hello message");
+    rtMessage_Release(m);
+    return;
+  }
 
   rtSubscription* subscription = (rtSubscription *) rt_malloc(sizeof(rtSubscription));
   subscription->id = 0;
@@ -884,8 +891,8 @@ rtRouted_OnMessageTimeOut(rtConnectedClient* sender, rtMessageHeader* hdr, uint8
   rtMessage_GetInt32(m, "T5", (int32_t *)&header.T5);
   rtMessage_GetString(m, "topic", &topic);
   rtMessage_GetString(m, "reply_topic", &reply_topic);
-  snprintf(header.topic, sizeof(header.topic), "%s", topic);
-  snprintf(header.reply_topic, sizeof(header.reply_topic), "%s", reply_topic);
+  snprintf(header.topic, sizeof(header.topic), "%s", topic ? topic : "");
+  snprintf(header.reply_topic, sizeof(header.reply_topic), "%s", reply_topic ? reply_topic : "");
   rtLog_Info("Consumer exist but the request timed out");
   rtRouted_TransactionTimingDetails(header);
 
@@ -1161,12 +1168,23 @@ rtRouted_OnMessageDiscoverElementObjects(rtConnectedClient* sender, rtMessageHea
 static void
 rtRouted_OnMessageDiagnostics(rtConnectedClient* sender, rtMessageHeader* hdr, uint8_t const* buff, int n)
 {
-  rtMessage msg;
-  const char * cmd;
+  rtMessage msg = NULL;
+  const char * cmd = NULL;
 
-  rtMessage_FromBytes(&msg, buff, n);
+  if(RT_OK != rtMessage_FromBytes(&msg, buff, n))
+  {
+    rtLog_Warn("Bad Diagnostics message");
+    rtLog_Warn("Sender %s", sender->ident);
+    return;
+  }
 
   rtMessage_GetString(msg, RTROUTER_DIAG_CMD_KEY, &cmd);
+  if(NULL == cmd)
+  {
+    rtLog_Warn("Bad Diagnostics message");
+    rtMessage_Release(msg);
+    return;
+  }
 
   if(0 == strncmp(RTROUTER_DIAG_CMD_ENABLE_VERBOSE_LOGS, cmd, sizeof(RTROUTER_DIAG_CMD_ENABLE_VERBOSE_LOGS)))
     rtLog_SetLevel(RT_LOG_DEBUG);
-- 
2.43.0


From 3e4d2e5df0e941baa1cfc513e21c165a0aff7d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:50 +0000
Subject: [PATCH 16/46] fix: a client could take a route on the router's own
 topic and have it freed while it was dispatched

---
 src/rtmessage/rtrouted.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rtmessage/rtrouted.c b/src/rtmessage/rtrouted.c
index 45eafde..0d1264b 100644
--- a/src/rtmessage/rtrouted.c
+++ b/src/rtmessage/rtrouted.c
@@ -760,7 +760,8 @@ rtRouted_OnMessageSubscribe(rtConnectedClient* sender, rtMessageHeader* hdr, uin
     if((RT_OK == rtMessage_GetInt32(m, "add", &add_subscrption)) &&
        (RT_OK == rtMessage_GetString(m, "topic", &expression)) &&
        (RT_OK == rtMessage_GetInt32(m, "route_id", (int32_t *)&route_id)) &&
-       (0 == validate_string(expression, RTMSG_MAX_EXPRESSION_LEN)))
+       (0 == validate_string(expression, RTMSG_MAX_EXPRESSION_LEN)) &&
+       (0 != strncmp(expression, "_RTROUTED.INBOX.", 16))) /* the router's own, and in dispatch right now */
     {
       if(1 == add_subscrption)
       {
-- 
2.43.0


From a3f8b0b8d23047bbaa5d111c6ecb75e635144c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:54 +0000
Subject: [PATCH 17/46] fix: a route added twice to a topic stayed there after
 it was freed

---
 src/rtmessage/rtRoutingTree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rtmessage/rtRoutingTree.c b/src/rtmessage/rtRoutingTree.c
index 53161a1..d20539f 100644
--- a/src/rtmessage/rtRoutingTree.c
+++ b/src/rtmessage/rtRoutingTree.c
@@ -493,7 +493,7 @@ rtError rtRoutingTree_AddTopicRoute(rtRoutingTree rt, const char* topicPath, con
     if(!topic->routeList)
         rtList_Create(&topic->routeList);
 
-    rtList_PushBack(topic->routeList, route, NULL);
+    addPointerToListOnce(topic->routeList, route);
 
     addPointerToListOnce(route->topicList, topic);
 
-- 
2.43.0


From fdac08e786b9e1ca3a6289d16d89967dd3b42c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:32 +0000
Subject: [PATCH 18/46] fix: replace a lost router connection in the reader
 thread only

A sender that failed to reconnect made the reader believe the connection had
been replaced, so that both spun forever on the dead socket; early returns left
reconnect_in_progress set (senders waited forever) or con->fd at -1 (the next
attempt took itself for the first connect and added no listeners back). The
reader thread now makes every new connection, adds the listeners back before
anything else is sent, and senders wait for the outcome of its attempt.
---
 src/rtmessage/rtConnection.c | 358 ++++++++++++++++++++---------------
 1 file changed, 202 insertions(+), 156 deletions(-)

diff --git a/src/rtmessage/rtConnection.c b/src/rtmessage/rtConnection.c
index 3c7356a..ab9154a 100644
--- a/src/rtmessage/rtConnection.c
+++ b/src/rtmessage/rtConnection.c
@@ -111,7 +111,7 @@ struct _rtConnection
   char                    inbox_name[RTMSG_HEADER_MAX_TOPIC_LENGTH];
   struct _rtListener      listeners[RTMSG_LISTENERS_MAX];
   pthread_mutex_t         mutex;
-  pthread_mutex_t         send_mutex; /*serializes sends; never held together with mutex so that a blocked send cannot stop the reader*/
+  pthread_mutex_t         send_mutex; /*serializes sends; never taken with mutex held so that a blocked send cannot stop the reader*/
   rtList                  pending_requests_list;
   rtList                  callback_message_list;
   rtMessageCallback       default_callback;
@@ -125,11 +125,10 @@ struct _rtConnection
   uint32_t                callback_count;
   pthread_cond_t          callback_done_cond;
   pthread_mutex_t         reconnect_mutex;
-  rtTime_t                reader_reconnect_time;
-  rtTime_t                sender_reconnect_time;
-  rtTime_t                reconnect_time;
-  rtTime_t                start_time;
-  int                     reconnect_in_progress;
+  pthread_cond_t          reconnect_cond;
+  uint32_t                connection_id; /*counts the connections made; written with send_mutex and reconnect_mutex held*/
+  uint32_t                reconnect_attempts; /*counts the attempts finished, successful or not; guarded by reconnect_mutex*/
+  int                     reconnect_wanted; /*a sender waits for the connection; guarded by reconnect_mutex*/
 #ifdef WITH_SPAKE2
   rtCipher*               cipher;
   uint8_t*                encryption_buffer;
@@ -281,108 +280,45 @@ rtConnection_ShouldReregister(rtError e)
   return 0;
 }
 
-static rtError
-rtConnection_ConnectAndRegister(rtConnection con, rtTime_t* reconnect_time)
+/*make a new connection to the router; returns the socket, or -1*/
+static int
+rtConnection_Connect(rtConnection con)
 {
   int i = 1;
-  int ret = 0;
+  int fd = -1;
+  int ret = -1;
   int fdManip = 0;
   uint16_t remote_port = 0;
-  uint16_t local_port = 0;
   char remote_addr[128] = {0};
-  char local_addr[128] = {0};
   socklen_t socket_length;
-  int first_to_handle = false;
-  int is_first_connect = true;
-  int reconnect_in_progress = 0;
-  rtTime_t last_reconnect_time;
-  char tbuff1[100];
-  char tbuff2[100];
-  char tbuff3[100];
-
-  if (!con)
-    return rtErrorFromErrno(EINVAL);
-
-  last_reconnect_time = con->reconnect_time;
-
-  if(con->fd != -1)
-    is_first_connect = false;
-
-  if(is_first_connect)
-  {
-    rtLog_Debug("ConnectAndRegister creating first connection");
-    rtTime_Now(&con->reconnect_time);
-  }
-  else
-  {
-    pthread_mutex_lock(&con->reconnect_mutex);
-
-    reconnect_in_progress = con->reconnect_in_progress;
-
-    if(!con->reconnect_in_progress)
-    {
-      if(rtTime_Compare(reconnect_time, &con->reconnect_time) > 0)
-      {
-        first_to_handle = true;
-        con->reconnect_in_progress = true;
-        rtTime_Now(&con->reconnect_time);
-      }
-    }
-    pthread_mutex_unlock(&con->reconnect_mutex);
-
-    rtLog_Debug("ConnectAndRegister reconnect state first_to_handle=%d reconnect_in_progress=%d threads_time=[%s] last_reconnect_time=[%s] new_reconnect_time=[%s]",
-      first_to_handle, reconnect_in_progress,
-      rtTime_ToString(&con->start_time, tbuff1),
-      rtTime_ToString(&last_reconnect_time, tbuff2),
-      rtTime_ToString(&con->reconnect_time, tbuff3));
-
-    if(!first_to_handle)
-    {
-      if(con->reconnect_in_progress)
-      {
-        rtLog_Debug("ConnectAndRegister waiting for reconnect start");
-        while(con->reconnect_in_progress)
-          usleep(100000);
-        rtLog_Debug("ConnectAndRegister waiting for reconnect end");
-      }
-      else
-      {
-        rtLog_Debug("ConnectAndRegister reconnect previously complete");
-      }
-      return RT_OK;
-    }
-  }
 
   rtSocketStorage_GetLength(&con->remote_endpoint, &socket_length);
 
-  if (con->fd != -1)
-    close(con->fd);
-
   rtLog_Debug("connecting to router");
-  con->fd = socket(con->remote_endpoint.ss_family, SOCK_STREAM, 0);
-  if (con->fd == -1)
-    return rtErrorFromErrno(errno);
+  fd = socket(con->remote_endpoint.ss_family, SOCK_STREAM, 0);
+  if (fd == -1)
+    return -1;
   rtLog_Debug("router connection up");
 
-  fdManip = fcntl(con->fd, F_GETFD);
-  if (fdManip < 0)
-    return rtErrorFromErrno(errno);
-
-  fdManip = fcntl(con->fd, F_SETFD, fdManip | FD_CLOEXEC);
-  if (fdManip < 0)
-    return rtErrorFromErrno(errno);
+  fdManip = fcntl(fd, F_GETFD);
+  if (fdManip < 0 || fcntl(fd, F_SETFD, fdManip | FD_CLOEXEC) < 0)
+  {
+    close(fd);
+    return -1;
+  }
 
-  if (setsockopt(con->fd, SOL_TCP, TCP_NODELAY, &i, sizeof(i)) < 0)
+  if (setsockopt(fd, SOL_TCP, TCP_NODELAY, &i, sizeof(i)) < 0)
     rtLog_Debug("Error setting TCP_NODELAY: %s", strerror(errno));
 
   rtSocketStorage_ToString(&con->remote_endpoint, remote_addr, sizeof(remote_addr), &remote_port);
 
   int retry = 0;
+  int is_first_connect = (con->fd == -1);
 
-  while (retry < con->max_retries || con->max_retries < 0 /*unlimited retries*/)
+  while ((retry < con->max_retries || con->max_retries < 0 /*unlimited retries*/) && (is_first_connect || GetRunThreadsSync(con)))
   {
     rtLog_Debug("trying connect");
-    ret = connect(con->fd, (struct sockaddr *)&con->remote_endpoint, socket_length);
+    ret = connect(fd, (struct sockaddr *)&con->remote_endpoint, socket_length);
     if (ret == -1)
     {
       int err = errno;
@@ -409,66 +345,162 @@ rtConnection_ConnectAndRegister(rtConnection con, rtTime_t* reconnect_time)
 
   if(-1 == ret) {
     rtLog_Warn("failed to connected after %d attempts", retry);
-    con->reconnect_in_progress = 0;
-    return RT_NO_CONNECTION;
+    close(fd);
+    return -1;
   }
 
+  return fd;
+}
+
+static void
+rtConnection_UpdateLocalEndpoint(rtConnection con)
+{
+  uint16_t port = 0;
+  char addr[128] = {0};
+
   rtSocket_GetLocalEndpoint(con->fd, &con->local_endpoint);
+  rtSocketStorage_ToString(&con->local_endpoint, addr, sizeof(addr), &port);
+  rtLog_Debug("connected from %s:%d", addr, port);
+}
 
-  rtSocketStorage_ToString(&con->local_endpoint, local_addr, sizeof(local_addr), &local_port);
-  rtLog_Debug("connect %s:%d -> %s:%d", local_addr, local_port, remote_addr, remote_port);
+/*with con->send_mutex held*/
+static rtError
+rtConnection_SendAdd(rtConnection con, char const* expression, uint32_t route_id)
+{
+  uint8_t* p;
+  uint32_t n;
+  uint32_t sequence_number;
+  rtError err;
+  rtMessage m;
 
-  /*first connect return here*/
-  if(is_first_connect)
-  {
-    con->reconnect_in_progress = 0;
-    return RT_OK;
-  }
+  rtMessage_Create(&m);
+  rtMessage_SetInt32(m, "add", 1);
+  rtMessage_SetString(m, "topic", expression);
+  rtMessage_SetInt32(m, "route_id", route_id);
+  rtMessage_ToByteArrayWithSize(m, &p, DEFAULT_SEND_BUFFER_SIZE, &n);
+  rtMessage_Release(m);
+#ifdef C11_ATOMICS_SUPPORTED
+  sequence_number = atomic_fetch_add_explicit(&con->sequence_number, 1, memory_order_relaxed);
+#else
+  sequence_number = __sync_fetch_and_add(&con->sequence_number, 1);
+#endif
+  err = rtConnection_SendInternal(con, p, n, "_RTROUTED.INBOX.SUBSCRIBE", NULL, 0, sequence_number, 0, 0, 0);
+  rtMessage_FreeByteArray(p);
+  return err;
+}
 
-  /*on reconnect, add back all listeners */
-  for (i = 0; i < RTMSG_LISTENERS_MAX; ++i)
+/*Replaces a lost connection. Only the reader thread does this, so that it never reads one part of a message from
+  one connection and the rest from another.*/
+static rtError
+rtConnection_ConnectAndRegister(rtConnection con)
+{
+  rtError err = RT_NO_CONNECTION;
+  int fd;
+  int i;
+
+  pthread_mutex_lock(&con->reconnect_mutex);
+  con->reconnect_wanted = 0;
+  shutdown(con->fd, SHUT_RDWR); /*so that a blocked send gives up*/
+  pthread_mutex_unlock(&con->reconnect_mutex);
+
+  fd = rtConnection_Connect(con);
+  if (fd != -1)
   {
-    if (con->listeners[i].in_use)
+
+    pthread_mutex_lock(&con->send_mutex);
+    pthread_mutex_lock(&con->reconnect_mutex);
+    close(con->fd);
+    con->fd = fd;
+    con->connection_id++;
+    pthread_mutex_unlock(&con->reconnect_mutex);
+
+    rtConnection_UpdateLocalEndpoint(con);
+
+    /*add back all listeners, before anything else is sent*/
+    err = RT_OK;
+    for (i = 0; i < RTMSG_LISTENERS_MAX && err == RT_OK; ++i)
     {
-      rtMessage m;
-      rtMessage_Create(&m);
-      rtMessage_SetInt32(m, "add", 1);
-      rtMessage_SetString(m, "topic", con->listeners[i].expression);
-      rtMessage_SetInt32(m, "route_id", con->listeners[i].subscription_id);
-      rtConnection_SendMessage(con, m, "_RTROUTED.INBOX.SUBSCRIBE");
-      rtMessage_Release(m);
-
-      /*TODO: we need to readd all the aliases too -- would this allow rbus to recover from broker crash ?*/
-    }
-  }
+      char* expression = NULL;
+      uint32_t route_id = 0;
 
-#ifdef WITH_SPAKE2
-  /*on reconnect, rerun key exchange since broker would have lost our key if it restarted */
-  if(con->cipher)
-  {
-     rtLog_Debug("Recreating cipher");
-     rtCipher_Destroy(con->cipher);
-      ret = rtCipher_CreateCipherSpake2Plus(&con->cipher, con->spakeconfig);
-      if(ret != RT_OK)
+      pthread_mutex_lock(&con->mutex);
+      if (con->listeners[i].in_use)
       {
-        rtLog_Error("failed to initialize spake2 based cipher");
-        //rtConnection_Destroy(con);
-        con->reconnect_in_progress = 0;
-        return ret;
+        expression = strdup(con->listeners[i].expression);
+        route_id = con->listeners[i].subscription_id;
       }
+      pthread_mutex_unlock(&con->mutex);
 
-    ret = rtCipher_RunKeyExchangeClient(con->cipher, con);
-    if (ret != RT_OK)
+      if (expression)
+        err = rtConnection_SendAdd(con, expression, route_id);
+      free(expression);
+    }
+    pthread_mutex_unlock(&con->send_mutex);
+
+#ifdef WITH_SPAKE2
+    /*on reconnect, rerun key exchange since broker would have lost our key if it restarted */
+    if(err == RT_OK && con->cipher)
     {
-      rtLog_Error("failed to do key exchange");
-      //rtConnection_Destroy(con);
-      con->reconnect_in_progress = 0;
-      return ret;
+      rtLog_Debug("Recreating cipher");
+      rtCipher_Destroy(con->cipher);
+      err = rtCipher_CreateCipherSpake2Plus(&con->cipher, con->spakeconfig);
+      if(err != RT_OK)
+        rtLog_Error("failed to initialize spake2 based cipher");
+      else if((err = rtCipher_RunKeyExchangeClient(con->cipher, con)) != RT_OK)
+        rtLog_Error("failed to do key exchange");
     }
-  }
 #endif
-  con->reconnect_in_progress = 0;
-  return RT_OK;
+  }
+
+  pthread_mutex_lock(&con->reconnect_mutex);
+  con->reconnect_attempts++;
+  pthread_cond_broadcast(&con->reconnect_cond);
+  pthread_mutex_unlock(&con->reconnect_mutex);
+  return err;
+}
+
+/*For senders that found the connection with the given id lost: wait until the reader thread replaced it, or failed
+  to. Unlike the reader thread, which retries forever, they return an error to the caller then.*/
+static rtError
+rtConnection_WaitReconnect(rtConnection con, uint32_t connection_id)
+{
+  rtError err;
+  uint32_t attempts;
+
+  if (con->read_tid == (pid_t)syscall(__NR_gettid))
+    return RT_NO_CONNECTION;
+
+  pthread_mutex_lock(&con->reconnect_mutex);
+  attempts = con->reconnect_attempts;
+  if (con->connection_id == connection_id)
+  {
+    shutdown(con->fd, SHUT_RDWR); /*the reader thread may not have noticed*/
+    con->reconnect_wanted = 1;
+    pthread_cond_broadcast(&con->reconnect_cond);
+  }
+  while (con->connection_id == connection_id && con->reconnect_attempts == attempts && 1 == GetRunThreadsSync(con))
+    pthread_cond_wait(&con->reconnect_cond, &con->reconnect_mutex);
+  err = (con->connection_id == connection_id) ? RT_NO_CONNECTION : RT_OK;
+  pthread_mutex_unlock(&con->reconnect_mutex);
+  return err;
+}
+
+/*reader thread, after a failed attempt: wait some time, less if a sender needs the connection*/
+static void
+rtConnection_PauseReconnect(rtConnection con)
+{
+  rtTime_t end;
+  rtTimespec_t ts;
+
+  rtTime_Later(NULL, 5000, &end);
+  rtTime_ToTimespec(&end, &ts);
+  pthread_mutex_lock(&con->reconnect_mutex);
+  while (!con->reconnect_wanted && 1 == GetRunThreadsSync(con))
+  {
+    if (0 != pthread_cond_timedwait(&con->reconnect_cond, &con->reconnect_mutex, &ts))
+      break;
+  }
+  pthread_mutex_unlock(&con->reconnect_mutex);
 }
 
 static rtError
@@ -546,6 +578,11 @@ rtConnection_CreateInternal(rtConnection* con, char const* application_name, cha
   }
   pthread_cond_init(&c->callback_message_cond, NULL);
   pthread_cond_init(&c->callback_done_cond, NULL);
+  pthread_condattr_t cond_attribute;
+  pthread_condattr_init(&cond_attribute);
+  pthread_condattr_setclock(&cond_attribute, CLOCK_MONOTONIC); /*as rtTime_Now*/
+  pthread_cond_init(&c->reconnect_cond, &cond_attribute);
+  pthread_condattr_destroy(&cond_attribute);
   for (i = 0; i < RTMSG_LISTENERS_MAX; ++i)
   {
     c->listeners[i].in_use = 0;
@@ -576,8 +613,6 @@ rtConnection_CreateInternal(rtConnection* con, char const* application_name, cha
   c->default_callback = NULL;
   c->run_threads = 0;
   c->read_tid = 0;
-  c->reconnect_in_progress = 0;
-  rtTime_Now(&c->start_time);
 #ifdef WITH_SPAKE2
   c->cipher = NULL;
   c->encryption_buffer = NULL;
@@ -601,11 +636,12 @@ rtConnection_CreateInternal(rtConnection* con, char const* application_name, cha
     free(c);
     return err;
   }
-  err = rtConnection_ConnectAndRegister(c, 0);
-  if (err != RT_OK)
+  c->fd = rtConnection_Connect(c);
+  if (c->fd == -1)
   {
+    err = RT_NO_CONNECTION;
     // TODO: at least log this
-    rtLog_Warn("rtConnection_ConnectAndRegister(1):%d", err);
+    rtLog_Warn("rtConnection_Connect(1):%d", err);
     free(c->send_buffer);
     free(c->recv_buffer);
     free(c->application_name);
@@ -616,6 +652,7 @@ rtConnection_CreateInternal(rtConnection* con, char const* application_name, cha
 
   if (err == RT_OK)
   {
+    rtConnection_UpdateLocalEndpoint(c);
     rtConnection_AddListenerWithId(c, c->inbox_name, RTCONNECTION_CREATE_EXPRESSION_ID, onDefaultMessage, c);
     rtConnection_StartThreads(c);
     *con = c;
@@ -708,8 +745,10 @@ rtConnection_Destroy(rtConnection con)
     unsigned int i;
     SetRunThreadsSync(con, 0);
     
+    pthread_mutex_lock(&con->reconnect_mutex);
     if (con->fd != -1)
       shutdown(con->fd, SHUT_RDWR);
+    pthread_mutex_unlock(&con->reconnect_mutex);
     
     rtConnection_StopThreads(con);
     
@@ -764,6 +803,7 @@ rtConnection_Destroy(rtConnection con)
     pthread_mutex_destroy(&con->callback_message_mutex);
     pthread_cond_destroy(&con->callback_message_cond);
     pthread_cond_destroy(&con->callback_done_cond);
+    pthread_cond_destroy(&con->reconnect_cond);
     pthread_mutex_destroy(&con->reconnect_mutex);
 
     free(con);
@@ -786,13 +826,13 @@ rtConnection_SendMessageDirect(rtConnection con, rtMessage msg, char const* topi
   if (!con)
     return rtErrorFromErrno(EINVAL);
 
-  rtTime_Now(&con->sender_reconnect_time);
   while(1)
   {
     uint8_t* p;
     uint32_t n;
     rtError err;
     uint32_t sequence_number;
+    uint32_t connection_id;
     rtMessage_ToByteArrayWithSize(msg, &p, DEFAULT_SEND_BUFFER_SIZE, &n);  /*FIXME unification is this needed ? rtMessage_FreeByteArray(p);*/
 
     pthread_mutex_lock(&con->send_mutex);
@@ -801,13 +841,14 @@ rtConnection_SendMessageDirect(rtConnection con, rtMessage msg, char const* topi
 #else
     sequence_number = __sync_fetch_and_add(&con->sequence_number, 1);
 #endif
+    connection_id = con->connection_id;
     err = rtConnection_SendInternal(con, p, n, topic, listener, 0, sequence_number, 0, 0, 0);
     pthread_mutex_unlock(&con->send_mutex);
     rtMessage_FreeByteArray(p);
 
     if(err == RT_NO_CONNECTION)
     {
-      err = rtConnection_ConnectAndRegister(con, &con->sender_reconnect_time);
+      err = rtConnection_WaitReconnect(con, connection_id);
       if(err != RT_OK)
         return err;
       else
@@ -846,24 +887,25 @@ rtConnection_SendResponse(rtConnection con, rtMessageHeader const* request_hdr,
   if (!con)
     return rtErrorFromErrno(EINVAL);
 
-  rtTime_Now(&con->sender_reconnect_time);
   while(1)
   {
     (void)timeout;
     rtError err;
     uint8_t* p;
     uint32_t n;
+    uint32_t connection_id;
 
     rtMessage_ToByteArrayWithSize(res, &p, DEFAULT_SEND_BUFFER_SIZE, &n);
     pthread_mutex_lock(&con->send_mutex);
   //TODO: should we send response on reconnect ?
+    connection_id = con->connection_id;
     err = rtConnection_SendInternal(con, p, n, request_hdr->reply_topic, request_hdr->topic, rtMessageFlags_Response, request_hdr->sequence_number, 0, 0, 0);
     pthread_mutex_unlock(&con->send_mutex);
     rtMessage_FreeByteArray(p);
 
     if(err == RT_NO_CONNECTION)
     {
-      err = rtConnection_ConnectAndRegister(con, &con->sender_reconnect_time);
+      err = rtConnection_WaitReconnect(con, connection_id);
       if(err != RT_OK)
         return err;
       else
@@ -890,11 +932,11 @@ rtConnection_SendBinaryDirect(rtConnection con, uint8_t const* p, uint32_t n, ch
   if (!con)
     return rtErrorFromErrno(EINVAL);
 
-  rtTime_Now(&con->sender_reconnect_time);
   while(1)
   {
     rtError err;
     uint32_t sequence_number;
+    uint32_t connection_id;
 
 #ifdef C11_ATOMICS_SUPPORTED
     sequence_number = atomic_fetch_add_explicit(&con->sequence_number, 1, memory_order_relaxed);
@@ -903,12 +945,13 @@ rtConnection_SendBinaryDirect(rtConnection con, uint8_t const* p, uint32_t n, ch
 #endif
 
     pthread_mutex_lock(&con->send_mutex);
+    connection_id = con->connection_id;
     err = rtConnection_SendInternal(con, p, n, topic, listener, rtMessageFlags_RawBinary, sequence_number, 0, 0, 0);
     pthread_mutex_unlock(&con->send_mutex);
 
     if(err == RT_NO_CONNECTION)
     {
-      err = rtConnection_ConnectAndRegister(con, &con->sender_reconnect_time);
+      err = rtConnection_WaitReconnect(con, connection_id);
       if(err != RT_OK)
         return err;
       else
@@ -984,7 +1027,6 @@ rtConnection_SendRequestInternal(rtConnection con, uint8_t const* pReq, uint32_t
 {
   if (!con)
     return rtErrorFromErrno(EINVAL);
-  rtTime_Now(&con->sender_reconnect_time);
   while(1)
   {
     rtError ret = RT_OK;
@@ -992,6 +1034,7 @@ rtConnection_SendRequestInternal(rtConnection con, uint8_t const* pReq, uint32_t
     uint32_t n = nReq;
     rtError err;
     uint32_t sequence_number;
+    uint32_t connection_id;
     rtListItem listItem;
 
     pid_t tid = syscall(__NR_gettid);
@@ -1012,6 +1055,7 @@ rtConnection_SendRequestInternal(rtConnection con, uint8_t const* pReq, uint32_t
     pthread_mutex_unlock(&con->mutex);
 
     pthread_mutex_lock(&con->send_mutex);
+    connection_id = con->connection_id;
     err = rtConnection_SendInternal(con, p, n, topic, con->inbox_name, rtMessageFlags_Request | flags, sequence_number, 0, 0, 0);
     pthread_mutex_unlock(&con->send_mutex);
 
@@ -1109,7 +1153,7 @@ rtConnection_SendRequestInternal(rtConnection con, uint8_t const* pReq, uint32_t
 
     if(ret == RT_NO_CONNECTION)
     {
-      ret = rtConnection_ConnectAndRegister(con, &con->sender_reconnect_time);
+      ret = rtConnection_WaitReconnect(con, connection_id);
       if(ret == RT_OK)
         continue;
     }
@@ -1323,6 +1367,7 @@ rtConnection_RemoveListener(rtConnection con, char const* expression)
   if (i >= RTMSG_LISTENERS_MAX)
     return RT_ERROR_INVALID_ARG;
 
+
   rtMessage m;
   rtMessage_Create(&m);
   rtMessage_SetInt32(m, "add", 0);
@@ -1362,6 +1407,7 @@ rtConnection_RemoveListenerWithId(rtConnection con, char const* expression, uint
   if (i >= RTMSG_LISTENERS_MAX)
     return RT_ERROR_INVALID_ARG;
 
+
   rtMessage m;
   rtMessage_Create(&m);
   rtMessage_SetInt32(m, "add", 0);
@@ -1402,12 +1448,13 @@ rtConnection_AddAlias(rtConnection con, char const* existing, const char *alias)
     {
       if(0 == strncmp(con->listeners[i].expression, existing, (strlen(con->listeners[i].expression) + 1)))
       {
+        uint32_t route_id = con->listeners[i].subscription_id;
         rtMessage m;
         rtMessage res;
         rtMessage_Create(&m);
         rtMessage_SetInt32(m, "add", 1);
         rtMessage_SetString(m, "topic", alias);
-        rtMessage_SetInt32(m, "route_id", con->listeners[i].subscription_id); 
+        rtMessage_SetInt32(m, "route_id", route_id); 
         ret = rtConnection_SendRequest(con, m, "_RTROUTED.INBOX.SUBSCRIBE", &res, 6000);
         if(RT_OK == ret)
         {
@@ -1769,7 +1816,7 @@ void check_router(rtConnection con)
     if(x != 0)
     {
       rtLog_Info("reconnecting from reader thread \n");
-      rtConnection_ConnectAndRegister(con, &con->reader_reconnect_time);
+      rtConnection_ConnectAndRegister(con);
     }
     dlclose(handle);
    }
@@ -1932,7 +1979,6 @@ static void * rtConnection_ReaderThread(void *data)
   rtLog_Debug("Reader thread started");
   while (1 == GetRunThreadsSync(con))
   {
-    rtTime_Now(&con->reader_reconnect_time);
     if((err = rtConnection_Read(con, -1)) != RT_OK)
     {
       if (0 == GetRunThreadsSync(con))
@@ -1947,20 +1993,16 @@ static void * rtConnection_ReaderThread(void *data)
       if(err == RT_NO_CONNECTION)
       {
         /*
-         rtConnection_ConnectAndRegister is also called from all the send api functions,
-         and if it fails to connect in those functions, they simply return error to the caller.
+         The send api functions wait until the connection is replaced, and
+         if it fails to connect here, they simply return error to the caller.
          However, here in the Reader thread, we are forced to just keep retrying indefinitely.
-         On rdkc its fine because they want unlimited retries anyways.
-         On rdkb if rtrouted crashes rbus is hosed irregardless of reconnect.
-         need to check rdkv
         */
         while (1 == GetRunThreadsSync(con))
         {
-            err = rtConnection_ConnectAndRegister(con, &con->reader_reconnect_time);
+            err = rtConnection_ConnectAndRegister(con);
             if (err == RT_OK || 1 != GetRunThreadsSync(con))
                 break;
-            sleep(5);
-            rtTime_Now(&con->reader_reconnect_time);//set this time to take ownership of reconnect
+            rtConnection_PauseReconnect(con);
         }
       }
       else
@@ -2014,6 +2056,10 @@ static int rtConnection_StopThreads(rtConnection con)
   pthread_cond_signal(&con->callback_message_cond);
   pthread_mutex_unlock(&con->callback_message_mutex);
 
+  pthread_mutex_lock(&con->reconnect_mutex);
+  pthread_cond_broadcast(&con->reconnect_cond);
+  pthread_mutex_unlock(&con->reconnect_mutex);
+
   pthread_join(con->reader_thread, NULL);
   pthread_join(con->callback_thread, NULL);
   return 0;
-- 
2.43.0


From bee415fffa0f34f004480958badd50e91e865833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:32 +0000
Subject: [PATCH 19/46] fix: add aliases back after reconnecting to the router

Only listeners were added again, so none of a provider's data elements were
reachable after the router was restarted or the connection was lost.
---
 src/rtmessage/rtConnection.c | 134 +++++++++++++++++++++++++++++++++++
 1 file changed, 134 insertions(+)

diff --git a/src/rtmessage/rtConnection.c b/src/rtmessage/rtConnection.c
index ab9154a..f4e727b 100644
--- a/src/rtmessage/rtConnection.c
+++ b/src/rtmessage/rtConnection.c
@@ -129,6 +129,9 @@ struct _rtConnection
   uint32_t                connection_id; /*counts the connections made; written with send_mutex and reconnect_mutex held*/
   uint32_t                reconnect_attempts; /*counts the attempts finished, successful or not; guarded by reconnect_mutex*/
   int                     reconnect_wanted; /*a sender waits for the connection; guarded by reconnect_mutex*/
+  rtList                  alias_list; /*the aliases to add again on reconnect; guarded by mutex*/
+  pthread_t               alias_thread;
+  int                     alias_thread_running; /*used by the reader thread and by StopThreads once the reader thread is gone*/
 #ifdef WITH_SPAKE2
   rtCipher*               cipher;
   uint8_t*                encryption_buffer;
@@ -163,6 +166,13 @@ typedef struct _rtCallbackMessage
   rtMessage msg;
 } rtCallbackMessage;
 
+typedef struct _rtAlias
+{
+  uint32_t route_id;
+  uint32_t connection_id; /*the connection it was added over*/
+  char name[];
+} rtAlias;
+
 static int g_taint_packets = 0; 
 static int rtConnection_StartThreads(rtConnection con);
 static int rtConnection_StopThreads(rtConnection con);
@@ -363,6 +373,16 @@ rtConnection_UpdateLocalEndpoint(rtConnection con)
   rtLog_Debug("connected from %s:%d", addr, port);
 }
 
+static uint32_t
+rtConnection_GetConnectionId(rtConnection con)
+{
+  uint32_t connection_id;
+  pthread_mutex_lock(&con->reconnect_mutex);
+  connection_id = con->connection_id;
+  pthread_mutex_unlock(&con->reconnect_mutex);
+  return connection_id;
+}
+
 /*with con->send_mutex held*/
 static rtError
 rtConnection_SendAdd(rtConnection con, char const* expression, uint32_t route_id)
@@ -389,6 +409,101 @@ rtConnection_SendAdd(rtConnection con, char const* expression, uint32_t route_id
   return err;
 }
 
+/*remember an alias, to add it again on reconnect; connection_id is the connection it was added over*/
+static void
+rtConnection_RememberAlias(rtConnection con, uint32_t connection_id, uint32_t route_id, char const* name)
+{
+  rtAlias* alias = (rtAlias *) rt_malloc(sizeof(rtAlias) + strlen(name) + 1);
+
+  alias->route_id = route_id;
+  alias->connection_id = connection_id;
+  strcpy(alias->name, name);
+
+  pthread_mutex_lock(&con->mutex);
+  rtList_PushBack(con->alias_list, alias, NULL);
+  pthread_mutex_unlock(&con->mutex);
+
+  if (rtConnection_GetConnectionId(con) != connection_id)
+  {
+    /*The connection was replaced meanwhile, the router may have forgotten the alias. It refuses what it still knows.*/
+    pthread_mutex_lock(&con->send_mutex);
+    rtConnection_SendAdd(con, name, route_id);
+    pthread_mutex_unlock(&con->send_mutex);
+  }
+}
+
+/*forget one alias of a route, or all of them*/
+static void
+rtConnection_ForgetAlias(rtConnection con, uint32_t route_id, char const* name)
+{
+  rtListItem item;
+  rtListItem next;
+
+  pthread_mutex_lock(&con->mutex);
+  for (rtList_GetFront(con->alias_list, &item); item != NULL; item = next)
+  {
+    rtAlias* alias;
+    rtListItem_GetData(item, (void**)&alias);
+    rtListItem_GetNext(item, &next);
+    if (alias->route_id == route_id && (!name || 0 == strcmp(alias->name, name)))
+      rtList_RemoveItem(con->alias_list, item, rtList_Cleanup_Free);
+  }
+  pthread_mutex_unlock(&con->mutex);
+}
+
+/*Adds back all aliases after a reconnect. The reader thread must not do this: there can be many, and the router
+  reads nothing while it is itself blocked sending to a client that does not read.*/
+static void *
+rtConnection_AliasThread(void* data)
+{
+  rtConnection con = (rtConnection)data;
+  uint32_t connection_id = rtConnection_GetConnectionId(con);
+  rtError err = RT_OK;
+
+  while (err == RT_OK && 1 == GetRunThreadsSync(con))
+  {
+    rtListItem item;
+    char* name = NULL;
+    uint32_t route_id = 0;
+
+    /*send_mutex is taken first, so that the removal of an alias that was found here is sent after it is added*/
+    pthread_mutex_lock(&con->send_mutex);
+    if (con->connection_id == connection_id)
+    {
+      pthread_mutex_lock(&con->mutex);
+      for (rtList_GetFront(con->alias_list, &item); item != NULL && !name; rtListItem_GetNext(item, &item))
+      {
+        rtAlias* alias;
+        rtListItem_GetData(item, (void**)&alias);
+        if (alias->connection_id != connection_id)
+        {
+          alias->connection_id = connection_id;
+          route_id = alias->route_id;
+          name = strdup(alias->name);
+        }
+      }
+      pthread_mutex_unlock(&con->mutex);
+    }
+    if (name)
+      err = rtConnection_SendAdd(con, name, route_id);
+    else
+      err = RT_FAIL; /*all done, or another reconnect takes care of them*/
+    pthread_mutex_unlock(&con->send_mutex);
+    free(name);
+  }
+  return NULL;
+}
+
+static void
+rtConnection_JoinAliasThread(rtConnection con)
+{
+  if (con->alias_thread_running)
+  {
+    pthread_join(con->alias_thread, NULL);
+    con->alias_thread_running = 0;
+  }
+}
+
 /*Replaces a lost connection. Only the reader thread does this, so that it never reads one part of a message from
   one connection and the rest from another.*/
 static rtError
@@ -406,6 +521,7 @@ rtConnection_ConnectAndRegister(rtConnection con)
   fd = rtConnection_Connect(con);
   if (fd != -1)
   {
+    rtConnection_JoinAliasThread(con);
 
     pthread_mutex_lock(&con->send_mutex);
     pthread_mutex_lock(&con->reconnect_mutex);
@@ -437,6 +553,13 @@ rtConnection_ConnectAndRegister(rtConnection con)
     }
     pthread_mutex_unlock(&con->send_mutex);
 
+    if (err == RT_OK)
+    {
+      if (0 == pthread_create(&con->alias_thread, NULL, rtConnection_AliasThread, con))
+        con->alias_thread_running = 1;
+      else
+        rtLog_Error("Unable to launch alias thread.");
+    }
 #ifdef WITH_SPAKE2
     /*on reconnect, rerun key exchange since broker would have lost our key if it restarted */
     if(err == RT_OK && con->cipher)
@@ -610,6 +733,7 @@ rtConnection_CreateInternal(rtConnection* con, char const* application_name, cha
   c->fd = -1;
   rtList_Create(&c->pending_requests_list);
   rtList_Create(&c->callback_message_list);
+  rtList_Create(&c->alias_list);
   c->default_callback = NULL;
   c->run_threads = 0;
   c->read_tid = 0;
@@ -633,6 +757,7 @@ rtConnection_CreateInternal(rtConnection* con, char const* application_name, cha
     free(c->application_name);
     rtList_Destroy(c->pending_requests_list,NULL);
     rtList_Destroy(c->callback_message_list, NULL);
+    rtList_Destroy(c->alias_list, NULL);
     free(c);
     return err;
   }
@@ -647,6 +772,7 @@ rtConnection_CreateInternal(rtConnection* con, char const* application_name, cha
     free(c->application_name);
     rtList_Destroy(c->pending_requests_list,NULL);
     rtList_Destroy(c->callback_message_list, NULL);
+    rtList_Destroy(c->alias_list, NULL);
     free(c);
   }
 
@@ -790,6 +916,7 @@ rtConnection_Destroy(rtConnection con)
     }
     rtList_Destroy(con->pending_requests_list,NULL);
     rtList_Destroy(con->callback_message_list, rtMessageInfo_ListItemFree);
+    rtList_Destroy(con->alias_list, rtList_Cleanup_Free);
     pthread_mutex_unlock(&con->mutex);
     if(0 != found_pending_requests)
     {
@@ -1367,6 +1494,7 @@ rtConnection_RemoveListener(rtConnection con, char const* expression)
   if (i >= RTMSG_LISTENERS_MAX)
     return RT_ERROR_INVALID_ARG;
 
+  rtConnection_ForgetAlias(con, route_id, NULL); /*the router forgets them with the route*/
 
   rtMessage m;
   rtMessage_Create(&m);
@@ -1407,6 +1535,7 @@ rtConnection_RemoveListenerWithId(rtConnection con, char const* expression, uint
   if (i >= RTMSG_LISTENERS_MAX)
     return RT_ERROR_INVALID_ARG;
 
+  rtConnection_ForgetAlias(con, route_id, NULL); /*the router forgets them with the route*/
 
   rtMessage m;
   rtMessage_Create(&m);
@@ -1449,6 +1578,7 @@ rtConnection_AddAlias(rtConnection con, char const* existing, const char *alias)
       if(0 == strncmp(con->listeners[i].expression, existing, (strlen(con->listeners[i].expression) + 1)))
       {
         uint32_t route_id = con->listeners[i].subscription_id;
+        uint32_t connection_id = rtConnection_GetConnectionId(con);
         rtMessage m;
         rtMessage res;
         rtMessage_Create(&m);
@@ -1461,6 +1591,8 @@ rtConnection_AddAlias(rtConnection con, char const* existing, const char *alias)
             int result = 0;
             rtMessage_GetInt32(res, "result", &result);
             ret = result;
+            if(RT_OK == result)
+                rtConnection_RememberAlias(con, connection_id, route_id, alias);
             if(RT_ERROR_DUPLICATE_ENTRY == result)
                 rtLog_Error("Failed to register %s. Duplicate entry", alias);
             else if (RT_ERROR_PROTOCOL_ERROR == result)
@@ -1493,6 +1625,7 @@ rtConnection_RemoveAlias(rtConnection con, char const* existing, const char *ali
       if(0 == strncmp(con->listeners[i].expression, existing, (strlen(con->listeners[i].expression) + 1)))
       {
         rtMessage m;
+        rtConnection_ForgetAlias(con, con->listeners[i].subscription_id, alias);
         rtMessage_Create(&m);
         rtMessage_SetInt32(m, "add", 0);
         rtMessage_SetString(m, "topic", alias);
@@ -2062,6 +2195,7 @@ static int rtConnection_StopThreads(rtConnection con)
 
   pthread_join(con->reader_thread, NULL);
   pthread_join(con->callback_thread, NULL);
+  rtConnection_JoinAliasThread(con);
   return 0;
 }
 
-- 
2.43.0


From 32eb298f599e738b94955f2e67a8c20d3da7e468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:32 +0000
Subject: [PATCH 20/46] fix: no events for subscriptions that were given up

The handler of a dirty subscription was still called when the provider could not
be told, and a failed attempt to subscribe again left it clean, i.e. active.
---
 src/rbus/rbus.c | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 5e26132..a507923 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -1462,8 +1462,9 @@ static int _master_event_callback_handler(char const* sender, char const* eventN
             {
                 rbusEventSubscriptionInternal_free(subInternal);
                 errorcode = RBUS_ERROR_SUCCESS;
-                goto exit_1;
             }
+            /*already unsubscribed, so the event isn't for the handler*/
+            goto exit_1;
         }
         if (event.type == RBUS_EVENT_DURATION_COMPLETE) {
             rtVector_RemoveItem(handleInfo->eventSubs, subInternal, NULL);
@@ -5095,6 +5096,7 @@ static rbusError_t rbusEvent_SubscribeWithRetries(
     rbusMessage response = NULL;
     int destNotFoundSleep = 1000; /*miliseconds*/
     int destNotFoundTimeout;
+    bool wasDirty = false;
     struct _rbusHandle* handleInfo = (struct _rbusHandle*)handle;
     HANDLE_EVENTSUBS_MUTEX_LOCK(handle);
     if ((subInternal = rbusEventSubscription_find(handleInfo->eventSubs, eventName, filter, interval, duration, rawData)) != NULL)
@@ -5103,6 +5105,7 @@ static rbusError_t rbusEvent_SubscribeWithRetries(
         if (subInternal->dirty)
         {
             subInternal->dirty = false;
+            wasDirty = true;
         }
         else
         {
@@ -5222,20 +5225,20 @@ static rbusError_t rbusEvent_SubscribeWithRetries(
     }
     else
     {
-        if(coreerr == RBUSCORE_ERROR_ENTRY_NOT_FOUND)
+        if(wasDirty && (coreerr == RBUSCORE_ERROR_ENTRY_NOT_FOUND || providerError != RBUS_ERROR_SUBSCRIPTION_ALREADY_EXIST))
         {
-            RBUSLOG_DEBUG("%s all subscribe retries failed because no provider could be found", eventName);
-            RBUSLOG_WARN("EVENT_SUBSCRIPTION_FAIL_NO_PROVIDER_COMPONENT  %s", eventName);/*RDKB-33658-AC7*/
             HANDLE_EVENTSUBS_MUTEX_LOCK(handle);
             if ((subInternal = rbusEventSubscription_find(handleInfo->eventSubs, eventName, filter, interval, duration, rawData)) != NULL)
             {
                 subInternal->dirty = true;
             }
-            else
-            {
-                rbusEventSubscription_free(sub);
-            }
             HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
+        }
+        if(coreerr == RBUSCORE_ERROR_ENTRY_NOT_FOUND)
+        {
+            RBUSLOG_DEBUG("%s all subscribe retries failed because no provider could be found", eventName);
+            RBUSLOG_WARN("EVENT_SUBSCRIPTION_FAIL_NO_PROVIDER_COMPONENT  %s", eventName);/*RDKB-33658-AC7*/
+            rbusEventSubscription_free(sub);
             return RBUS_ERROR_TIMEOUT;
         }
         else if(providerError != RBUS_ERROR_SUCCESS)
@@ -5325,9 +5328,10 @@ static void _subscribe_rawdata_handler(rbusHandle_t handle, rbusMessage_t* msg,
                         }
                         rbusEventSubscriptionInternal_free(subInternal);
                     }
-                    HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
-                    return;
                 }
+                /*already unsubscribed, so the event isn't for the handler*/
+                HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
+                return;
             }
             /*as for other events, the subscription stays locked while its handler runs*/
             rbusEventHandlerRawData_t eventHandlerFuncPtr = ptmp->handler;
-- 
2.43.0


From 44b1781c6563e3a8d6d58341a0e0917a7068d7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:32 +0000
Subject: [PATCH 21/46] fix: set rawData and subscriptionId of a subscription
 the provider already had

They were left uninitialized, so that the subscription could often neither be
found for its events nor unsubscribed.
---
 src/rbus/rbus.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index a507923..e8a3731 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -1160,6 +1160,7 @@ int subscribeHandlerImpl(
         }
         else
         {
+            *subscriptionId = subscription->subscriptionId;
             HANDLE_SUBS_MUTEX_UNLOCK(handle);
             return RBUS_ERROR_SUBSCRIPTION_ALREADY_EXIST;
         }
@@ -5246,6 +5247,12 @@ static rbusError_t rbusEvent_SubscribeWithRetries(
             RBUSLOG_DEBUG("%s subscribe retries failed due provider error %d", eventName, providerError);
             if (providerError == RBUS_ERROR_SUBSCRIPTION_ALREADY_EXIST)
             {
+                int32_t subscriptionId = 0;
+                if(response)
+                {
+                    rbusMessage_GetInt32(response, &subscriptionId);
+                    rbusMessage_Release(response);
+                }
                 HANDLE_EVENTSUBS_MUTEX_LOCK(handle);
                 if ((subInternal = rbusEventSubscription_find(handleInfo->eventSubs, eventName, filter, interval, duration, rawData)) != NULL)
                 {
@@ -5254,6 +5261,8 @@ static rbusError_t rbusEvent_SubscribeWithRetries(
                 subInternal = rt_malloc(sizeof(rbusEventSubscriptionInternal_t));
                 subInternal->sub = sub;
                 subInternal->dirty = false;
+                subInternal->rawData = rawData;
+                subInternal->subscriptionId = subscriptionId;
                 rtVector_PushBack(handleInfo->eventSubs, subInternal);
                 RBUSLOG_INFO("EVENT_SUBSCRIPTION_ALREADY_EXIST  %s", subInternal->sub->eventName);
                 HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
-- 
2.43.0


From 27cf53bc4cbd52df692bdb81ec460c98f553ae12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:57 +0000
Subject: [PATCH 22/46] fix: keep the nodes of a removed table row while other
 threads use them

A row can be unregistered by a thread of the provider while the callback thread
(or any thread publishing) is using the row's nodes. Nodes taken out of the
tree are now freed when no thread uses any node. A row is instantiated and
deleted under the subscriptions lock, so that a subscription being added does
not miss it, find it twice or keep a dangling pointer to it, and the table sync
handler is called without the element lock.
---
 src/rbus/rbus.c         |  46 +++++++++++++++---
 src/rbus/rbus_element.c | 105 +++++++++++++++++++++++++++-------------
 src/rbus/rbus_element.h |   2 +
 3 files changed, 114 insertions(+), 39 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index e8a3731..f3b3cd0 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -1246,9 +1246,9 @@ static void registerTableRow (rbusHandle_t handle, elementNode* tableInstElem, c
 
     RBUSLOG_DEBUG("table [%s] alias [%s] instNum [%u]", tableName, aliasName, instNum);
 
-    rowElem = instantiateTableRow(tableInstElem, instNum, aliasName);
-
+    /*a subscription being added either finds the row in the table or is found here*/
     HANDLE_SUBS_MUTEX_LOCK(handle);
+    rowElem = instantiateTableRow(tableInstElem, instNum, aliasName);
     rbusSubscriptions_onTableRowAdded(handleInfo->subscriptions, rowElem);
     HANDLE_SUBS_MUTEX_UNLOCK(handle);
 
@@ -1316,9 +1316,8 @@ static void unregisterTableRow (rbusHandle_t handle, elementNode* rowInstElem)
 
     HANDLE_SUBS_MUTEX_LOCK(handle);
     rbusSubscriptions_onTableRowRemoved(handleInfo->subscriptions, rowInstElem);
-    HANDLE_SUBS_MUTEX_UNLOCK(handle);
-
     deleteTableRow(rowInstElem);
+    HANDLE_SUBS_MUTEX_UNLOCK(handle);
 
     /*send OBJECT_DELETED event after we delete the row*/
     {
@@ -2858,6 +2857,7 @@ static void _close_direct_connection_callback_handler (rbusHandle_t handle, rbus
 static int _callback_handler(char const* destination, char const* method, rbusMessage request, void* userData, rbusMessage* response, const rtMessageHeader* hdr)
 {
     rbusHandle_t handle = (rbusHandle_t)userData;
+    int rc = 0;
 
     RBUSLOG_DEBUG("Received callback for [%s]", destination);
 
@@ -2867,6 +2867,8 @@ static int _callback_handler(char const* destination, char const* method, rbusMe
         return 0;
     }
 
+    elementsBeginUse();
+
     if(!strcmp(method, METHOD_GETPARAMETERVALUES))
     {
         _get_callback_handler (handle, request, response);
@@ -2914,14 +2916,16 @@ static int _callback_handler(char const* destination, char const* method, rbusMe
     }
     else if(!strcmp(method, METHOD_RPC))
     {
-        return _method_callback_handler (handle, request, response, hdr);
+        rc = _method_callback_handler (handle, request, response, hdr);
     }
     else
     {
         RBUSLOG_WARN("unhandled callback for [%s] method!", method);
     }
 
-    return 0;
+    elementsEndUse();
+
+    return rc;
 }
 
 /*
@@ -4677,23 +4681,28 @@ rbusError_t rbusTable_registerRow(
         return RBUS_ERROR_INVALID_INPUT;
     }
 
+    elementsBeginUse();
+
     elementNode* rowInstElem = retrieveInstanceElement(handleInfo->elementRoot, rowName);
     elementNode* tableInstElem = retrieveInstanceElement(handleInfo->elementRoot, tableName);
 
     if(rowInstElem)
     {
         RBUSLOG_WARN("row already exists %s", rowName);
+        elementsEndUse();
         return RBUS_ERROR_INVALID_INPUT;
     }
 
     if(!tableInstElem)
     {
         RBUSLOG_WARN("table does not exist %s", tableName);
+        elementsEndUse();
         return RBUS_ERROR_INVALID_INPUT;
     }
 
     RBUSLOG_DEBUG("register table row %s", rowName);
     registerTableRow(handle, tableInstElem, tableName, aliasName, instNum);
+    elementsEndUse();
     return RBUS_ERROR_SUCCESS;
 }
 
@@ -4709,15 +4718,19 @@ rbusError_t rbusTable_unregisterRow(
     if (handleInfo->m_handleType != RBUS_HWDL_TYPE_REGULAR)
         return RBUS_ERROR_INVALID_HANDLE;
 
+    elementsBeginUse();
+
     elementNode* rowInstElem = retrieveInstanceElement(handleInfo->elementRoot, rowName);
 
     if(!rowInstElem)
     {
         RBUSLOG_DEBUG("row does not exists %s", rowName);
+        elementsEndUse();
         return RBUS_ERROR_INVALID_INPUT;
     }
 
     unregisterTableRow(handle, rowInstElem);
+    elementsEndUse();
     return RBUS_ERROR_SUCCESS;
 }
 
@@ -5952,20 +5965,29 @@ rbusError_t  rbusEvent_PublishRawData(
 
     /*get the node and walk its subscriber list,
       publishing event to each subscriber*/
+    elementsBeginUse();
     elementNode* el = retrieveInstanceElement(handleInfo->elementRoot, eventData->name);
 
     if(!el)
     {
         RBUSLOG_WARN("Publish failed! retrieveElement return NULL for %s", eventData->name);
+        elementsEndUse();
         return RBUS_ERROR_ELEMENT_DOES_NOT_EXIST;
     }
 
     if(!el->subscriptions)/*nobody subscribed yet*/
     {
+        elementsEndUse();
         return RBUS_ERROR_NOSUBSCRIBERS;
     }
 
     HANDLE_SUBS_MUTEX_LOCK(handle);
+    if(!el->subscriptions)/*the last one unsubscribed since*/
+    {
+        HANDLE_SUBS_MUTEX_UNLOCK(handle);
+        elementsEndUse();
+        return RBUS_ERROR_NOSUBSCRIBERS;
+    }
     rtList_GetFront(el->subscriptions, &listItem);
     while(listItem)
     {
@@ -5983,6 +6005,7 @@ rbusError_t  rbusEvent_PublishRawData(
         rtListItem_GetNext(listItem, &listItem);
     }
     HANDLE_SUBS_MUTEX_UNLOCK(handle);
+    elementsEndUse();
     snprintf(rawDataTopic, RBUS_MAX_NAME_LENGTH, "rawdata.%s", eventData->name);
     err = rbus_sendData(eventData->rawData, eventData->rawDataLen, rawDataTopic);
     rc = rbusCoreError_to_rbusError(err);
@@ -6010,16 +6033,19 @@ rbusError_t  rbusEvent_Publish(
 
     /*get the node and walk its subscriber list, 
       publishing event to each subscriber*/
+    elementsBeginUse();
     elementNode* el = retrieveInstanceElement(handleInfo->elementRoot, eventData->name);
 
     if(!el)
     {
         RBUSLOG_WARN("Publish failed! retrieveElement return NULL for %s", eventData->name);
+        elementsEndUse();
         return RBUS_ERROR_ELEMENT_DOES_NOT_EXIST;
     }
 
     if(!el->subscriptions)/*nobody subscribed yet*/
     {
+        elementsEndUse();
         return RBUS_ERROR_NOSUBSCRIBERS;
     }
 
@@ -6033,12 +6059,19 @@ rbusError_t  rbusEvent_Publish(
         if(!eventData->data || !newVal || !oldVal)
         {
             RBUSLOG_ERROR("missing value data for value change event %s", eventData->name);
+            elementsEndUse();
             return RBUS_ERROR_INVALID_INPUT;
         }
     }
 
     /*Loop through element's subscriptions*/
     HANDLE_SUBS_MUTEX_LOCK(handle);
+    if(!el->subscriptions)/*the last one unsubscribed since*/
+    {
+        HANDLE_SUBS_MUTEX_UNLOCK(handle);
+        elementsEndUse();
+        return RBUS_ERROR_NOSUBSCRIBERS;
+    }
     rtList_GetFront(el->subscriptions, &listItem);
     while(listItem)
     {
@@ -6114,6 +6147,7 @@ rbusError_t  rbusEvent_Publish(
         rtListItem_GetNext(listItem, &listItem);
     }
     HANDLE_SUBS_MUTEX_UNLOCK(handle);
+    elementsEndUse();
 
     return errOut == RBUSCORE_SUCCESS ? RBUS_ERROR_SUCCESS: RBUS_ERROR_BUS_ERROR;
 }
diff --git a/src/rbus/rbus_element.c b/src/rbus/rbus_element.c
index 60cb5f1..0713827 100644
--- a/src/rbus/rbus_element.c
+++ b/src/rbus/rbus_element.c
@@ -44,6 +44,12 @@ elementNode* pruneNode = NULL;
 pthread_mutex_t element_mutex;
 static int mutex_init = 0;
 
+/* A row can be removed at any time, also while other threads are using nodes of it that they found before.
+   Nodes taken out of the tree are kept until no thread is using any node. */
+static pthread_mutex_t use_mutex = PTHREAD_MUTEX_INITIALIZER;
+static int useCount = 0;
+static elementNode* removedNodes = NULL;
+
 //****************************** UTILITY FUNCTIONS ***************************//
 char const* getTypeString(rbusElementType_t type)
 {
@@ -74,18 +80,8 @@ elementNode* getEmptyElementNode(void)
     return node;
 }
 
-static void freeElementRecurse(elementNode* node)
+static void destroyElementNode(elementNode* node)
 {
-    VERIFY_NULL(node);
-    elementNode* child = node->child;
-
-    while(child)
-    {
-        elementNode* tmp = child;
-        child = child->nextSibling;
-        freeElementRecurse(tmp);
-    }
-
     if (node->name)
     {
         free(node->name);
@@ -106,15 +102,56 @@ static void freeElementRecurse(elementNode* node)
     {
         free(node->changeComp);
     }
-
     free(node);
+}
 
+void elementsBeginUse(void)
+{
+    ERROR_CHECK(pthread_mutex_lock(&use_mutex));
+    useCount++;
+    ERROR_CHECK(pthread_mutex_unlock(&use_mutex));
 }
 
-void freeElementNode(elementNode* node)
+void elementsEndUse(void)
+{
+    elementNode* node = NULL;
+
+    ERROR_CHECK(pthread_mutex_lock(&use_mutex));
+    if(--useCount == 0)
+    {
+        node = removedNodes;
+        removedNodes = NULL;
+    }
+    ERROR_CHECK(pthread_mutex_unlock(&use_mutex));
+
+    while(node)
+    {
+        elementNode* tmp = node;
+        node = node->nextPrune;
+        destroyElementNode(tmp);
+    }
+}
+
+static void releaseElementNode(elementNode* node)
+{
+    ERROR_CHECK(pthread_mutex_lock(&use_mutex));
+    if(useCount > 0)
+    {
+        node->nextPrune = removedNodes;
+        removedNodes = node;
+        node = NULL;
+    }
+    ERROR_CHECK(pthread_mutex_unlock(&use_mutex));
+
+    if(node)
+    {
+        destroyElementNode(node);
+    }
+}
+
+static void freeElementRecurse(elementNode* node)
 {
     VERIFY_NULL(node);
-    elementNode* parent = node->parent;
     elementNode* child = node->child;
 
     while(child)
@@ -124,6 +161,15 @@ void freeElementNode(elementNode* node)
         freeElementRecurse(tmp);
     }
 
+    releaseElementNode(node);
+}
+
+void freeElementNode(elementNode* node)
+{
+    VERIFY_NULL(node);
+    elementNode* parent = node->parent;
+    elementNode* child;
+
     if(parent)
     {
         if(parent->child == node)
@@ -142,30 +188,20 @@ void freeElementNode(elementNode* node)
                 }
                 child = child->nextSibling;
             }
+            if(!child)
+                return; /*another thread removed it first*/
         }
     }
 
-    if (node->name)
-    {
-        free(node->name);
-    }
-    if (node->fullName)
-    {
-        free(node->fullName);
-    }
-    if (node->alias)
-    {
-        free(node->alias);
-    }
-    if (node->subscriptions)
-    {
-        rtList_Destroy(node->subscriptions, NULL);
-    }
-    if (node->changeComp)
+    child = node->child;
+    while(child)
     {
-        free(node->changeComp);
+        elementNode* tmp = child;
+        child = child->nextSibling;
+        freeElementRecurse(tmp);
     }
-    free(node);
+
+    releaseElementNode(node);
 
     /*remove objects with no children
      could be an intermitent object added during insertElem
@@ -567,9 +603,12 @@ elementNode* retrieveInstanceElementEx(rbusHandle_t handle, elementNode* root, c
         {
             if (token && nextNode->type == RBUS_ELEMENT_TYPE_TABLE && (syncTables && nextNode->cbTable.tableSyncHandler))
             {
+                /*the handler adds and removes rows, which needs other locks*/
+                UNLOCK();
                 ELM_PRIVATE_LOCK(nextNode);
                 nextNode->cbTable.tableSyncHandler(handle, nextNode->fullName);
                 ELM_PRIVATE_UNLOCK(nextNode);
+                LOCK();
             }
             currentNode = nextNode;
             nextNode = currentNode->child;
diff --git a/src/rbus/rbus_element.h b/src/rbus/rbus_element.h
index dfef11b..1c5f138 100644
--- a/src/rbus/rbus_element.h
+++ b/src/rbus/rbus_element.h
@@ -78,6 +78,8 @@ typedef struct elementNode
 /******************************** FUNCTIONS **********************************/
 elementNode* getEmptyElementNode(void);
 void freeElementNode(elementNode* node);
+void elementsBeginUse(void); /* the nodes of the tree are not freed until elementsEndUse */
+void elementsEndUse(void);
 elementNode* insertElement(elementNode* root, rbusDataElement_t* elem);
 void removeElement(elementNode* element);
 elementNode* retrieveElement(elementNode* root, const char* name);
-- 
2.43.0


From e25dc00344bc5c6f278ede4c3e57fb6e63b2b0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:53 +0000
Subject: [PATCH 23/46] fix: value-change polling without deadlocks and use
 after free

The poll thread called the provider's get handlers and rbusEvent_Publish with
its mutex held, while subscribing and unsubscribing take that mutex (and join
the thread) with the subscriptions lock held, which publishing needs: a
deadlock. Records, the mutex and the component of the last change could be
freed while in use, and a value read before a subscriber came could be
published to it afterwards.
---
 src/rbus/rbus.c             |  20 +-
 src/rbus/rbus_element.c     |  17 ++
 src/rbus/rbus_element.h     |   1 +
 src/rbus/rbus_valuechange.c | 359 ++++++++++++++++++++----------------
 4 files changed, 224 insertions(+), 173 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index f3b3cd0..62905c7 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -1044,17 +1044,19 @@ void valueChangeTableRowUpdate(rbusHandle_t handle, elementNode* rowNode, bool a
         {
             if(child->type == RBUS_ELEMENT_TYPE_PROPERTY)
             {
+                bool hasSubs;
+                HANDLE_SUBS_MUTEX_LOCK(handle);
+                hasSubs = elementHasAutoPubSubscriptions(child, NULL);
+                HANDLE_SUBS_MUTEX_UNLOCK(handle);
+
+                if(!added)
+                {
+                    rbusValueChange_RemovePropertyNode(handle, child);
+                }
                 /*avoid calling ValueChange if there's no subs on it*/
-                if(elementHasAutoPubSubscriptions(child, NULL))
+                else if(hasSubs)
                 {
-                    if(added)
-                    {
-                        rbusValueChange_AddPropertyNode(handle, child);
-                    }
-                    else
-                    {
-                        rbusValueChange_RemovePropertyNode(handle, child);
-                    }
+                    rbusValueChange_AddPropertyNode(handle, child);
                 }
             }
 
diff --git a/src/rbus/rbus_element.c b/src/rbus/rbus_element.c
index 0713827..2bd8602 100644
--- a/src/rbus/rbus_element.c
+++ b/src/rbus/rbus_element.c
@@ -1228,12 +1228,29 @@ void replicateAcrossTableRowInstances(elementNode* newNode)
 void setPropertyChangeComponent(elementNode* node, char const* componentName)
 {
     VERIFY_NULL(node);
+    LOCK();
     if(node->changeComp)
         free(node->changeComp);
     if(componentName)
         node->changeComp = strdup(componentName);
     rtTime_Now(&node->changeTime);
+    UNLOCK();
+}
 
+/* The component that made the last change: if none is known, or the known one is the provider (selfName) and longer ago than
+   period milliseconds, then the provider has changed the value just now. */
+char* getPropertyChangeComponent(elementNode* node, char const* selfName, int period)
+{
+    char* comp;
+    LOCK();
+    if(node->changeComp == NULL ||
+       (rtTime_Elapsed(&node->changeTime, NULL) >= period && strcmp(selfName, node->changeComp) == 0))
+    {
+        setPropertyChangeComponent(node, selfName);
+    }
+    comp = strdup(node->changeComp);
+    UNLOCK();
+    return comp;
 }
 
 void rbusElement_mutex_destroy(void)
diff --git a/src/rbus/rbus_element.h b/src/rbus/rbus_element.h
index 1c5f138..dd0a98b 100644
--- a/src/rbus/rbus_element.h
+++ b/src/rbus/rbus_element.h
@@ -96,6 +96,7 @@ elementNode* instantiateTableRow(elementNode* tableNode, uint32_t instNum, char
 void deleteTableRow(elementNode* rowNode);
 void getPropertyInstanceNames(elementNode* root, char const* query, rtVector propNameList);
 void setPropertyChangeComponent(elementNode* node, char const* componentName);
+char* getPropertyChangeComponent(elementNode* node, char const* selfName, int period);
 void rbusElement_mutex_destroy(void);
 
 #ifdef __cplusplus
diff --git a/src/rbus/rbus_valuechange.c b/src/rbus/rbus_valuechange.c
index db975b2..b5c7deb 100644
--- a/src/rbus/rbus_valuechange.c
+++ b/src/rbus/rbus_valuechange.c
@@ -57,24 +57,33 @@
 #define LOCK() ERROR_CHECK(pthread_mutex_lock(&gVC->mutex))
 #define UNLOCK() ERROR_CHECK(pthread_mutex_unlock(&gVC->mutex))
 
+/*
+    Locks: the provider's get handlers and rbusEvent_Publish are called without gVC->mutex, because both need locks that a thread
+    adding or removing a property holds already. A record is reference counted, so that it can be removed while it is being polled.
+*/
+typedef struct ValueChangeRecord
+{
+    rbusHandle_t handle;    //needed when calling rbus_getHandler and rbusEvent_Publish
+    elementNode const* node;    //used to call the rbus_getHandler is contains
+    rbusProperty_t property;    //the parameter with value that gets cached
+    int refs;
+    bool removed;           //not in params any more
+} ValueChangeRecord;
 
 typedef struct ValueChangeDetector_t
 {
-    int              running;
+    int              running;   //the polling thread exists
     rtVector         params;
+    ValueChangeRecord* current; //being polled
     pthread_mutex_t  mutex;
     pthread_t        thread;
-    pthread_cond_t   cond;
+    pthread_cond_t   cond;      //to the polling thread
+    pthread_cond_t   idle;      //from the polling thread: done with a record, or ended
 } ValueChangeDetector_t;
 
-typedef struct ValueChangeRecord
-{
-    rbusHandle_t handle;    //needed when calling rbus_getHandler and rbusEvent_Publish
-    elementNode const* node;    //used to call the rbus_getHandler is contains
-    rbusProperty_t property;    //the parameter with value that gets cached
-} ValueChangeRecord;
-
-ValueChangeDetector_t* gVC = NULL;
+static ValueChangeDetector_t sVC;
+static ValueChangeDetector_t* gVC = &sVC;
+static pthread_once_t sOnce = PTHREAD_ONCE_INIT;
 
 static void rbusValueChange_Init()
 {
@@ -83,12 +92,8 @@ static void rbusValueChange_Init()
 
     RBUSLOG_DEBUG("%s", __FUNCTION__);
 
-    if(gVC)
-        return;
-
-    gVC = rt_malloc(sizeof(struct ValueChangeDetector_t));
-
     gVC->running = 0;
+    gVC->current = NULL;
     gVC->params = NULL;
 
     rtVector_Create(&gVC->params);
@@ -100,18 +105,33 @@ static void rbusValueChange_Init()
     ERROR_CHECK(pthread_condattr_init(&cattrib));
     ERROR_CHECK(pthread_condattr_setclock(&cattrib, CLOCK_MONOTONIC));
     ERROR_CHECK(pthread_cond_init(&gVC->cond, &cattrib));
+    ERROR_CHECK(pthread_cond_init(&gVC->idle, &cattrib));
     ERROR_CHECK(pthread_condattr_destroy(&cattrib));
 }
 
-static void vcParams_Free(void* p)
+/*call with the lock*/
+static void vcParams_Release(void* p)
 {
     ValueChangeRecord* rec = (ValueChangeRecord*)p;
-    if(rec){
+    if(rec && --rec->refs == 0)
+    {
         rbusProperty_Release(rec->property);
         free(rec);
     }
 }
 
+/*call with the lock*/
+static void vcParams_Remove(ValueChangeRecord* rec)
+{
+    rec->removed = true;
+    rtVector_RemoveItem(gVC->params, rec, vcParams_Release);
+    if(rtVector_Size(gVC->params) == 0)
+    {
+        /* there's nothing left to poll: the polling thread ends */
+        ERROR_CHECK(pthread_cond_signal(&gVC->cond));
+    }
+}
+
 static ValueChangeRecord* vcParams_Find(const elementNode* paramNode)
 {
     size_t i;
@@ -124,121 +144,160 @@ static ValueChangeRecord* vcParams_Find(const elementNode* paramNode)
     return NULL;
 }
 
+static bool vcParams_IsRemoved(ValueChangeRecord* rec)
+{
+    bool removed;
+    LOCK();
+    removed = rec->removed;
+    UNLOCK();
+    return removed;
+}
+
+static void rbusValueChange_poll(ValueChangeRecord* rec)
+{
+    rbusProperty_t property;
+    rbusValue_t newVal, oldVal;
+    int result;
+
+    rbusProperty_Init(&property,rbusProperty_GetName(rec->property), NULL);
+
+    rbusGetHandlerOptions_t opts;
+    memset(&opts, 0, sizeof(rbusGetHandlerOptions_t));
+    opts.requestingComponent = "valueChangePollThread";
+
+    ELM_PRIVATE_LOCK(rec->node);
+    result = rec->node->cbTable.getHandler(rec->handle, property, &opts);
+    ELM_PRIVATE_UNLOCK(rec->node);
+
+    if(result != RBUS_ERROR_SUCCESS)
+    {
+        RBUSLOG_WARN("failed to get current value of %s", rbusProperty_GetName(property));
+        rbusProperty_Release(property);
+        return;
+    }
+
+    char* sValue = rbusValue_ToString(rbusProperty_GetValue(property), NULL, 0);
+    RBUSLOG_DEBUG("%s=%s", rbusProperty_GetName(property), sValue);
+    free(sValue);
+
+    newVal = rbusProperty_GetValue(property);
+    oldVal = rbusProperty_GetValue(rec->property);
+
+    if(rbusValue_Compare(newVal, oldVal))
+    {
+        rbusEvent_t event = {0};
+        rbusObject_t data;
+        rbusValue_t byVal = NULL;
+        char* byComp;
+
+        RBUSLOG_INFO("value change detected for %s", rbusProperty_GetName(rec->property));
+
+        /* The "by" field is set to the component's name which made the last value change.
+           The source of a value-change could be an external component calling rbus_set or the provider internally updating
+           the value.  changeComp/changeTime are updated through the rbus_set path, but not through the provider internal path.
+           We must deduce if the provider has updated the value and reflect that change to the changeComp/changeTime, right here.
+           If we don't have a changeComp or we do but the changeTime is older then the current polling period,
+           then we know it was the provider who updated the value we are now detecting.
+        */
+        byComp = getPropertyChangeComponent((elementNode*)rec->node, rec->handle->componentName, RBUS_VALUECHANGE_PERIOD);
+
+        rbusObject_Init(&data, NULL);
+        rbusObject_SetValue(data, "value", newVal);
+        rbusObject_SetValue(data, "oldValue", oldVal);
+
+        rbusValue_Init(&byVal);
+        rbusValue_SetString(byVal, byComp);
+        rbusObject_SetValue(data, "by", byVal);
+        rbusValue_Release(byVal);
+        free(byComp);
+
+        event.name = rbusProperty_GetName(rec->property);
+        event.data = data;
+        event.type = RBUS_EVENT_VALUE_CHANGED;
+
+        /* a new subscriber, who starts with a new record, does not get an event of a record that was removed */
+        HANDLE_SUBS_MUTEX_LOCK(rec->handle);
+        if(!vcParams_IsRemoved(rec))
+        {
+            result = rbusEvent_Publish(rec->handle, &event);
+        }
+        HANDLE_SUBS_MUTEX_UNLOCK(rec->handle);
+
+        rbusObject_Release(data);
+
+        if(result != RBUS_ERROR_SUCCESS)
+        {
+            RBUSLOG_WARN("Event_Publish failed with result=%d", result);
+        }
+
+        /*update the record's property with new value*/
+        rbusProperty_SetValue(rec->property, newVal);
+    }
+    else
+    {
+        RBUSLOG_DEBUG("value change not detected for %s", rbusProperty_GetName(rec->property));
+    }
+    rbusProperty_Release(property);
+}
+
 static void* rbusValueChange_pollingThreadFunc(void *userData)
 {
     (void)(userData);
     RBUSLOG_DEBUG("%s: start", __FUNCTION__);
     LOCK();
-    while(gVC->running)
+    while(rtVector_Size(gVC->params) != 0)
     {
         size_t i;
-        int err;
+        int err = 0;
         rtTime_t timeout;
         rtTimespec_t ts;
+        rtVector params;
 
         rtTime_Later(NULL, RBUS_VALUECHANGE_PERIOD, &timeout);
-        
-        err = pthread_cond_timedwait(&gVC->cond, 
-                                    &gVC->mutex, 
-                                    rtTime_ToTimespec(&timeout, &ts));
+        rtTime_ToTimespec(&timeout, &ts);
 
-        if(err != 0 && err != ETIMEDOUT)
+        while(rtVector_Size(gVC->params) != 0 && err == 0)
         {
-            RBUSLOG_ERROR("Error %d:%s running command pthread_cond_timedwait", err, strerror(err));
+            err = pthread_cond_timedwait(&gVC->cond, &gVC->mutex, &ts);
         }
-        
-        if(!gVC->running)
+
+        if(err != 0 && err != ETIMEDOUT)
         {
-            break;
+            RBUSLOG_ERROR("Error %d:%s running command pthread_cond_timedwait", err, strerror(err));
         }
 
+        rtVector_Create(&params);
         for(i=0; i < rtVector_Size(gVC->params); ++i)
         {
-            rbusProperty_t property;
-            rbusValue_t newVal, oldVal;
-
             ValueChangeRecord* rec = (ValueChangeRecord*)rtVector_At(gVC->params, i);
-            if(!rec)
-                continue;
-
-            rbusProperty_Init(&property,rbusProperty_GetName(rec->property), NULL);
-
-            rbusGetHandlerOptions_t opts;
-            memset(&opts, 0, sizeof(rbusGetHandlerOptions_t));
-            opts.requestingComponent = "valueChangePollThread";
-
-            ELM_PRIVATE_LOCK(rec->node);
-            int result = rec->node->cbTable.getHandler(rec->handle, property, &opts);
-            ELM_PRIVATE_UNLOCK(rec->node);
-
-            if(result != RBUS_ERROR_SUCCESS)
+            if(rec)
             {
-                RBUSLOG_WARN("failed to get current value of %s", rbusProperty_GetName(property));
-                continue;
+                rec->refs++;
+                rtVector_PushBack(params, rec);
             }
+        }
 
-            char* sValue = rbusValue_ToString(rbusProperty_GetValue(property), NULL, 0);
-            RBUSLOG_DEBUG("%s=%s", rbusProperty_GetName(property), sValue);
-            free(sValue);
-
-            newVal = rbusProperty_GetValue(property);
-            oldVal = rbusProperty_GetValue(rec->property);
+        for(i=0; i < rtVector_Size(params); ++i)
+        {
+            ValueChangeRecord* rec = (ValueChangeRecord*)rtVector_At(params, i);
 
-            if(rbusValue_Compare(newVal, oldVal))
+            elementsBeginUse();
+            if(!rec->removed)
             {
-                rbusEvent_t event = {0};
-                rbusObject_t data;
-                rbusValue_t byVal = NULL;
-
-                RBUSLOG_INFO("value change detected for %s", rbusProperty_GetName(rec->property));
-
-                /* The "by" field is set to the component's name which made the last value change.
-                   The source of a value-change could be an external component calling rbus_set or the provider internally updating
-                   the value.  changeComp/changeTime are updated through the rbus_set path, but not through the provider internal path.
-                   We must deduce if the provider has updated the value and reflect that change to the changeComp/changeTime, right here.
-                   If we don't have a changeComp or we do but the changeTime is older then the current polling period,
-                   then we know it was the provider who updated the value we are now detecting.
-                */
-                if(rec->node->changeComp == NULL || 
-                   (rtTime_Elapsed(&rec->node->changeTime, NULL) >= RBUS_VALUECHANGE_PERIOD &&
-                   strcmp(rec->handle->componentName, rec->node->changeComp) == 0))
-                {
-                    printf("VC detected provider-side value-change oldcomp=%s elapsed=%d period=%d\n", rec->node->changeComp, rtTime_Elapsed(&rec->node->changeTime, NULL), RBUS_VALUECHANGE_PERIOD);
-                    setPropertyChangeComponent((elementNode*)rec->node, rec->handle->componentName);
-                }
-
-                rbusObject_Init(&data, NULL);
-                rbusObject_SetValue(data, "value", newVal);
-                rbusObject_SetValue(data, "oldValue", oldVal);
-
-                rbusValue_Init(&byVal);
-                rbusValue_SetString(byVal, rec->node->changeComp);
-                rbusObject_SetValue(data, "by", byVal);
-                rbusValue_Release(byVal);
-
-                event.name = rbusProperty_GetName(rec->property);
-                event.data = data;
-                event.type = RBUS_EVENT_VALUE_CHANGED;
-                result = rbusEvent_Publish(rec->handle, &event);
-
-                rbusObject_Release(data);
-
-                if(result != RBUS_ERROR_SUCCESS)
-                {
-                    RBUSLOG_WARN("Event_Publish failed with result=%d", result);
-                }
-
-                /*update the record's property with new value*/
-                rbusProperty_SetValue(rec->property, rbusProperty_GetValue(property));
-                rbusProperty_Release(property);
-            }
-            else
-            {
-                RBUSLOG_DEBUG("value change not detected for %s", rbusProperty_GetName(rec->property));
-                rbusProperty_Release(property);
+                gVC->current = rec;
+                UNLOCK();
+                rbusValueChange_poll(rec);
+                LOCK();
+                gVC->current = NULL;
+                ERROR_CHECK(pthread_cond_broadcast(&gVC->idle));
             }
+            elementsEndUse();
+            vcParams_Release(rec);
         }
+        rtVector_Destroy(params, NULL);
     }
+    gVC->running = 0;
+    ERROR_CHECK(pthread_cond_broadcast(&gVC->idle));
     UNLOCK();
     RBUSLOG_DEBUG("%s: stop", __FUNCTION__);
     return NULL;
@@ -248,10 +307,7 @@ void rbusValueChange_AddPropertyNode(rbusHandle_t handle, elementNode* propNode)
 {
     ValueChangeRecord* rec;
 
-    if(!gVC)
-    {
-        rbusValueChange_Init();
-    }
+    pthread_once(&sOnce, rbusValueChange_Init);
 
     /* basic sanity tests */    
     assert(propNode);
@@ -287,6 +343,8 @@ void rbusValueChange_AddPropertyNode(rbusHandle_t handle, elementNode* propNode)
         rec = (ValueChangeRecord*)rt_malloc(sizeof(ValueChangeRecord));
         rec->handle = handle;
         rec->node = propNode;
+        rec->refs = 1;
+        rec->removed = false;
 
         rbusProperty_Init(&rec->property, propNode->fullName, NULL);
 
@@ -302,7 +360,7 @@ void rbusValueChange_AddPropertyNode(rbusHandle_t handle, elementNode* propNode)
         if(result != RBUS_ERROR_SUCCESS)
         {
             RBUSLOG_WARN("failed to get current value for %s as the node is not found", propNode->fullName);
-            vcParams_Free(rec);
+            vcParams_Release(rec);
             rec = NULL;
             return;
         }
@@ -313,14 +371,28 @@ void rbusValueChange_AddPropertyNode(rbusHandle_t handle, elementNode* propNode)
 
         LOCK();//############ LOCK ############
 
-        rtVector_PushBack(gVC->params, rec);
+        if(vcParams_Find(propNode))
+        {
+            /*added by another thread in the meantime*/
+            vcParams_Release(rec);
+        }
+        else
+        {
+            rtVector_PushBack(gVC->params, rec);
+        }
 
         /* start polling thread if needed */
 
         if(!gVC->running)
         {
-            gVC->running = 1;
-            pthread_create(&gVC->thread, NULL, rbusValueChange_pollingThreadFunc, NULL);
+            pthread_attr_t attr;
+            ERROR_CHECK(pthread_attr_init(&attr));
+            ERROR_CHECK(pthread_attr_setdetachstate(&attr, PTHREAD_CREATE_DETACHED));
+            if(pthread_create(&gVC->thread, &attr, rbusValueChange_pollingThreadFunc, NULL) == 0)
+                gVC->running = 1;
+            else
+                RBUSLOG_ERROR("failed to create the polling thread");
+            ERROR_CHECK(pthread_attr_destroy(&attr));
         }
 
         UNLOCK();//############ UNLOCK ############
@@ -330,53 +402,31 @@ void rbusValueChange_AddPropertyNode(rbusHandle_t handle, elementNode* propNode)
 void rbusValueChange_RemovePropertyNode(rbusHandle_t handle, elementNode* propNode)
 {
     ValueChangeRecord* rec;
-    bool stopThread = false;
 
     (void)(handle);
     VERIFY_NULL(propNode);
     RBUSLOG_DEBUG("RemovePropertyNode %s", propNode->fullName);
 
-    if(!gVC)
-    {
-        return;
-    }
+    pthread_once(&sOnce, rbusValueChange_Init);
 
     LOCK();//############ LOCK ############
     rec = vcParams_Find(propNode);
     if(rec)
     {
-        rtVector_RemoveItem(gVC->params, rec, vcParams_Free);
-        /* if there's nothing left to poll then shutdown the polling thread */
-        if(gVC->running && rtVector_Size(gVC->params) == 0)
-        {
-            stopThread = true;
-            gVC->running = 0;
-        }
-        else 
-        {
-            stopThread = false;
-        }
+        vcParams_Remove(rec);
     }
     else
     {
-        RBUSLOG_WARN("value change param not found: %s", propNode->fullName);
+        RBUSLOG_DEBUG("value change param not found: %s", propNode->fullName);
     }
     UNLOCK();//############ UNLOCK ############
-    if(stopThread)
-    {
-        ERROR_CHECK(pthread_cond_signal(&gVC->cond));
-        ERROR_CHECK(pthread_join(gVC->thread, NULL));
-    }
 }
 
 void rbusValueChange_CloseHandle(rbusHandle_t handle)
 {
     RBUSLOG_DEBUG("%s", __FUNCTION__);
 
-    if(!gVC)
-    {
-        return;
-    }
+    pthread_once(&sOnce, rbusValueChange_Init);
 
     //remove all params for this bus handle
     LOCK();//############ LOCK ############
@@ -386,7 +436,7 @@ void rbusValueChange_CloseHandle(rbusHandle_t handle)
         ValueChangeRecord* rec = (ValueChangeRecord*)rtVector_At(gVC->params, i);
         if(rec && rec->handle == handle)
         {
-            rtVector_RemoveItem(gVC->params, rec, vcParams_Free);
+            vcParams_Remove(rec);
         }
         else
         {
@@ -395,31 +445,12 @@ void rbusValueChange_CloseHandle(rbusHandle_t handle)
         }
     }
 
-    //clean up everything once all params are removed
-    //but check the size to ensure we do not clean up if params for other rbus handles exist
-    if(rtVector_Size(gVC->params) == 0)
+    //wait until the polling thread is done with this handle, and for its end if there is nothing left to poll
+    while((gVC->current && gVC->current->handle == handle) || (gVC->running && rtVector_Size(gVC->params) == 0))
     {
-        if(gVC->running)
-        {
-            gVC->running = 0;
-            UNLOCK();//############ UNLOCK ############
-            ERROR_CHECK(pthread_cond_signal(&gVC->cond));
-            ERROR_CHECK(pthread_join(gVC->thread, NULL));
-        }
-        else
-        {
-            UNLOCK();//############ UNLOCK ############
-        }
-        ERROR_CHECK(pthread_mutex_destroy(&gVC->mutex));
-        ERROR_CHECK(pthread_cond_destroy(&gVC->cond));
-        rtVector_Destroy(gVC->params, NULL);
-        gVC->params = NULL;
-        free(gVC);
-        gVC = NULL;
-    }
-    else
-    {
-        UNLOCK();//############ UNLOCK ############
+        if(gVC->running && pthread_equal(gVC->thread, pthread_self()))
+            break; //closed by a get handler
+        ERROR_CHECK(pthread_cond_wait(&gVC->idle, &gVC->mutex));
     }
+    UNLOCK();//############ UNLOCK ############
 }
-
-- 
2.43.0


From 14cbacf15465a9a5619a501c1f7eb0f4f7fd75cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:09 +0000
Subject: [PATCH 24/46] fix: interval subscriptions: races between tick, end
 and unsubscribe

Unsubscribing signalled the thread without its mutex and joined it with the
subscriptions lock held: it could wait for a whole interval, and dead-locked
with a subscription that just reached its duration. One more event was
published after the stop, a spurious wake-up was an extra tick, the
subscription was used after its table row had been removed, closing the handle
did not stop the threads, a new subscription made from the duration-complete
event could be lost, and a wildcard without rows yet never ticked.
---
 src/rbus/rbus.c                      |  37 ++---
 src/rbus/rbus_intervalsubscription.c | 222 ++++++++++++++++++---------
 src/rbus/rbus_intervalsubscription.h |   1 +
 src/rbus/rbus_subscriptions.c        |   4 +
 4 files changed, 173 insertions(+), 91 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 62905c7..b090549 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -1187,7 +1187,22 @@ int subscribeHandlerImpl(
     }
     else
     { 
-        if(el->type == RBUS_ELEMENT_TYPE_PROPERTY && subscription->autoPublish)
+        if(el->type == RBUS_ELEMENT_TYPE_PROPERTY && subscription->autoPublish && subscription->interval)
+        {
+            /*once for all instances, those still to come too*/
+            RBUSLOG_INFO("subscription with interval  %s event=%s prop=%s",
+                    added ? "Add" : "Remove", subscription->eventName, el->fullName);
+            if(added)
+            {
+                if((error = rbusInterval_AddSubscriptionRecord(handle, el, subscription)) != RBUS_ERROR_SUCCESS)
+                    RBUSLOG_ERROR("rbusInterval_AddSubscriptionRecord failed with error : %d\n", error);
+            }
+            else
+            {
+                rbusInterval_RemoveSubscriptionRecord(handle, el, subscription);
+            }
+        }
+        else if(el->type == RBUS_ELEMENT_TYPE_PROPERTY && subscription->autoPublish)
         {
             rtListItem item;
             rtList_GetFront(subscription->instances, &item);
@@ -1197,22 +1212,7 @@ int subscribeHandlerImpl(
 
                 rtListItem_GetData(item, (void**)&node);
 
-                if (subscription->interval)
-                {
-                    RBUSLOG_INFO("subscription with interval  %s event=%s prop=%s",
-                            added ? "Add" : "Remove", subscription->eventName, node->fullName);
-                    if(added) {
-                        if((error = rbusInterval_AddSubscriptionRecord(handle, node, subscription)) != RBUS_ERROR_SUCCESS)
-                            RBUSLOG_ERROR("rbusInterval_AddSubscriptionRecord failed with error : %d\n", error);
-                        break;
-                    }
-                    else
-                    {
-                        rbusInterval_RemoveSubscriptionRecord(handle, node, subscription);
-                        break;
-                    }
-                }
-                else if(!elementHasAutoPubSubscriptions(node, subscription))
+                if(!elementHasAutoPubSubscriptions(node, subscription))
                 {
                     /* Check if the node has other subscribers or not.  If it has other
                        subs then we don't need to either add or remove it from ValueChange */
@@ -3243,9 +3243,10 @@ rbusError_t rbus_close(rbusHandle_t handle)
     {
         HANDLE_SUBS_MUTEX_LOCK(handle);
         rbusSubscriptions_destroy(handleInfo->subscriptions);
-        HANDLE_SUBS_MUTEX_UNLOCK(handle);
         handleInfo->subscriptions = NULL;
+        HANDLE_SUBS_MUTEX_UNLOCK(handle);
     }
+    rbusInterval_CloseHandle(handle);
 
     if(handleInfo->elementRoot)
     {
diff --git a/src/rbus/rbus_intervalsubscription.c b/src/rbus/rbus_intervalsubscription.c
index aa83fe2..61b4378 100644
--- a/src/rbus/rbus_intervalsubscription.c
+++ b/src/rbus/rbus_intervalsubscription.c
@@ -42,8 +42,16 @@
 }
 #define VERIFY_NULL(T)      if(NULL == T){ return; }
 
+/*
+    Each subscription with an interval has a thread, which owns its record: it takes it out of gRecord and frees it when it ends.
+    The thread has its own copy of what it needs of the subscription, because that may be removed at any time, and nobody waits for
+    the thread while holding a lock.
+    Records are added and stopped with the subscriptions mutex of the handle.
+    Lock order: subscriptions mutex of the handle, gMutex, mutex of a record.
+*/
 rtVector gRecord = NULL;
 static pthread_mutex_t gMutex = PTHREAD_MUTEX_INITIALIZER;
+static pthread_cond_t gCond = PTHREAD_COND_INITIALIZER; /*a record was taken out of gRecord*/
 typedef struct sRecord
 {
     int running;
@@ -51,9 +59,15 @@ typedef struct sRecord
     pthread_t        thread;
     pthread_cond_t   cond;
     rbusHandle_t     handle;
-    elementNode const* node;
-    rbusProperty_t   property;
-    rbusSubscription_t* sub;
+    rbusSubscription_t* sub; /*valid while running and with the subscriptions mutex*/
+    char*            eventName;
+    char*            listener;
+    rbusFilter_t     filter;
+    int32_t          componentId;
+    int32_t          interval;
+    int32_t          duration;
+    uint32_t         subscriptionId;
+    int              rawData;
 } sRecord;
 
 void rbusEventData_appendToMessage(rbusEvent_t* event, rbusFilter_t filter, int32_t interval, int32_t duration, int32_t componentId, rbusMessage msg);
@@ -82,7 +96,10 @@ static void sub_Free(void* p)
     {
         ERROR_CHECK(pthread_mutex_destroy(&rec->mutex));
         ERROR_CHECK(pthread_cond_destroy(&rec->cond));
-        rbusProperty_Release(rec->property);
+        free(rec->eventName);
+        free(rec->listener);
+        if(rec->filter)
+            rbusFilter_Release(rec->filter);
         rec->sub = NULL;
         free(rec);
     }
@@ -101,6 +118,31 @@ static sRecord* sub_find(rbusSubscription_t* sub)
     return NULL;
 }
 
+static void publish(sRecord* sub_rec, rbusEvent_t* event)
+{
+    struct _rbusHandle* handleInfo = (struct _rbusHandle*)sub_rec->handle;
+    rbusCoreError_t error;
+    rbusMessage msg;
+
+    rbusMessage_Init(&msg);
+    rbusEventData_appendToMessage(event, sub_rec->filter, sub_rec->interval, sub_rec->duration, sub_rec->componentId, msg);
+
+    RBUSLOG_DEBUG("rbusEvent_Publish: publishing event %s to listener %s interval %d", sub_rec->eventName, sub_rec->listener, sub_rec->interval);
+    error = rbus_publishSubscriberEvent(
+            handleInfo->componentName,
+            sub_rec->eventName/*use the same eventName the consumer subscribed with; not event instance name eventData->name*/,
+            sub_rec->listener,
+            msg,
+            sub_rec->subscriptionId,
+            sub_rec->rawData);
+
+    if(error != RBUSCORE_SUCCESS)
+    {
+        RBUSLOG_ERROR("Event_Publish failed with result=%d", error);
+    }
+    rbusMessage_Release(msg);
+}
+
 /* Publishing event based on subscriber interval */
 static void* PublishingThreadFunc(void* rec)
 {
@@ -108,37 +150,44 @@ static void* PublishingThreadFunc(void* rec)
     struct sRecord *sub_rec = (struct sRecord*)rec;
     int count = 0;
     int duration_count = 0;
-    bool duration_complete = false;
-    rbusCoreError_t error;
-    rbusSubscription_t* sub = sub_rec->sub;
     struct _rbusHandle* handleInfo = (struct _rbusHandle*)sub_rec->handle;
     ERROR_CHECK(pthread_mutex_lock(&sub_rec->mutex));
     while(sub_rec->running)
     {
-        int err;
+        int err = 0;
         int actualCount = 0;
         int result = 0;
         char *tmpptr = NULL;
         rtTime_t timeout;
         rtTimespec_t ts;
-        rtTime_Later(NULL, (sub->interval*1000), &timeout);
-        err = pthread_cond_timedwait(&sub_rec->cond,
-                &sub_rec->mutex,
-                rtTime_ToTimespec(&timeout, &ts));
+        rtTime_Later(NULL, (sub_rec->interval*1000), &timeout);
+        rtTime_ToTimespec(&timeout, &ts);
+        while(sub_rec->running && err == 0)
+        {
+            err = pthread_cond_timedwait(&sub_rec->cond, &sub_rec->mutex, &ts);
+        }
 
         if(err != 0 && err != ETIMEDOUT)
         {
             RBUSLOG_ERROR("Error %d:%s running command pthread_cond_timedwait", err, strerror(err));
         }
 
+        if(!sub_rec->running)
+        {
+            break;
+        }
+        ERROR_CHECK(pthread_mutex_unlock(&sub_rec->mutex));
+
         rbusProperty_t properties = NULL;
         rbusObject_t data;
         rbusObject_Init(&data, NULL);
         rbusProperty_Init(&properties, "numberOfEntries", NULL);
-        result = get_recursive_wildcard_handler(handleInfo, sub->eventName,
+        elementsBeginUse();
+        result = get_recursive_wildcard_handler(handleInfo, sub_rec->eventName,
                 "IntervalThread", properties, &actualCount);
+        elementsEndUse();
         rbusProperty_SetInt32(properties, actualCount);
-        tmpptr = strchr(sub->eventName, '*');
+        tmpptr = strchr(sub_rec->eventName, '*');
         if (tmpptr)
         {
             rbusObject_SetProperty(data, properties);
@@ -150,65 +199,56 @@ static void* PublishingThreadFunc(void* rec)
         rbusProperty_Release(properties);
         if(result != RBUS_ERROR_SUCCESS)
         {
-            RBUSLOG_ERROR("failed to get details of %s", sub->eventName);
+            RBUSLOG_ERROR("failed to get details of %s", sub_rec->eventName);
             rbusObject_Release(data);
+            ERROR_CHECK(pthread_mutex_lock(&sub_rec->mutex));
             continue;
         }
 
         rbusEvent_t event = {0};
-        event.name = sub->eventName;
+        event.name = sub_rec->eventName;
         event.data = data;
         event.type = RBUS_EVENT_INTERVAL;
         /* Handling subscription with duration */
-        if (sub->duration != 0)
+        if (sub_rec->duration != 0)
         {
-            duration_count = sub->duration/sub->interval;
+            duration_count = sub_rec->duration/sub_rec->interval;
             if (count >= duration_count)
             {
                 /* Update event type after duration timeout*/
                 event.type = RBUS_EVENT_DURATION_COMPLETE;
-                duration_complete = true;
             }
         }
 
-        rbusMessage msg;
-        rbusMessage_Init(&msg);
-        rbusEventData_appendToMessage(&event, sub->filter, sub->interval, sub->duration, sub->componentId, msg);
-
-        RBUSLOG_DEBUG("rbusEvent_Publish: publishing event %s to listener %s interval %d", sub->eventName, sub->listener, sub->interval);
-        error = rbus_publishSubscriberEvent(
-                handleInfo->componentName,
-                sub->eventName/*use the same eventName the consumer subscribed with; not event instance name eventData->name*/,
-                sub->listener,
-                msg,
-                sub->subscriptionId,
-                sub->rawData);
-
-        rbusMessage_Release(msg);
-        rbusObject_Release(data);
-        if(error != RBUSCORE_SUCCESS)
+        if (event.type == RBUS_EVENT_DURATION_COMPLETE)
         {
-            RBUSLOG_ERROR("Event_Publish failed with result=%d", result);
-        }
-
-        if (duration_complete)
-        {
-            break;
+            /*the subscriber, once told, may subscribe again at once: remove the subscription, which stops this record, first*/
+            HANDLE_SUBS_MUTEX_LOCK(handleInfo);
+            if(sub_rec->running)
+            {
+                rbusSubscriptions_removeSubscription(handleInfo->subscriptions, sub_rec->sub);
+                publish(sub_rec, &event);
+            }
+            HANDLE_SUBS_MUTEX_UNLOCK(handleInfo);
+            ERROR_CHECK(pthread_mutex_lock(&sub_rec->mutex));
         }
         else
         {
+            ERROR_CHECK(pthread_mutex_lock(&sub_rec->mutex));
+            if(sub_rec->running) /*nothing is published once it was stopped*/
+            {
+                publish(sub_rec, &event);
+            }
             count++;
         }
+        rbusObject_Release(data);
     }
     ERROR_CHECK(pthread_mutex_unlock(&sub_rec->mutex));
-    if(duration_complete) {
-        ERROR_CHECK(pthread_mutex_lock(&gMutex));
-        ERROR_CHECK(pthread_mutex_lock(&handleInfo->handle_subsMutex));
-        rbusSubscriptions_removeSubscription(handleInfo->subscriptions, sub);
-        ERROR_CHECK(pthread_mutex_unlock(&handleInfo->handle_subsMutex));
-        rtVector_RemoveItem(gRecord, sub_rec, sub_Free);
-        ERROR_CHECK(pthread_mutex_unlock(&gMutex));
-    }
+
+    ERROR_CHECK(pthread_mutex_lock(&gMutex));
+    rtVector_RemoveItem(gRecord, sub_rec, sub_Free);
+    ERROR_CHECK(pthread_cond_broadcast(&gCond));
+    ERROR_CHECK(pthread_mutex_unlock(&gMutex));
     RBUSLOG_DEBUG("%s: stop\n", __FUNCTION__);
     return NULL;
 }
@@ -220,6 +260,7 @@ rbusError_t rbusInterval_AddSubscriptionRecord(
         rbusSubscription_t* sub)
 {
     sRecord *sub_rec = NULL;
+    rbusError_t rc = RBUS_ERROR_SUCCESS;
     if(!propNode)
     {
         RBUSLOG_ERROR("propNode NULL error");
@@ -243,26 +284,45 @@ rbusError_t rbusInterval_AddSubscriptionRecord(
         rtVector_Create(&gRecord);
 
     sub_rec = sub_find(sub);
-    ERROR_CHECK(pthread_mutex_unlock(&gMutex));
     if(!sub_rec)
     {
+        pthread_attr_t attr;
         sub_rec = (sRecord*)rt_malloc(sizeof(sRecord));
         sub_rec->handle = handle;
-        sub_rec->node = propNode;
         sub_rec->sub = sub;
-        rbusProperty_Init(&sub_rec->property, propNode->fullName, NULL);
+        sub_rec->eventName = strdup(sub->eventName);
+        sub_rec->listener = strdup(sub->listener);
+        sub_rec->filter = sub->filter;
+        if(sub_rec->filter)
+            rbusFilter_Retain(sub_rec->filter);
+        sub_rec->componentId = sub->componentId;
+        sub_rec->interval = sub->interval;
+        sub_rec->duration = sub->duration;
+        sub_rec->subscriptionId = sub->subscriptionId;
+        sub_rec->rawData = sub->rawData;
         init_thread(sub_rec);
 
         /* Thread create */
         sub_rec->running = 1;
-        pthread_create(&sub_rec->thread, NULL, PublishingThreadFunc, (void *)sub_rec);
-
-        rtVector_PushBack(gRecord, sub_rec);
+        ERROR_CHECK(pthread_attr_init(&attr));
+        ERROR_CHECK(pthread_attr_setdetachstate(&attr, PTHREAD_CREATE_DETACHED));
+        if(pthread_create(&sub_rec->thread, &attr, PublishingThreadFunc, (void *)sub_rec) == 0)
+        {
+            rtVector_PushBack(gRecord, sub_rec);
+        }
+        else
+        {
+            RBUSLOG_ERROR("failed to create the thread");
+            sub_Free(sub_rec);
+            rc = RBUS_ERROR_OUT_OF_RESOURCES;
+        }
+        ERROR_CHECK(pthread_attr_destroy(&attr));
     }
-    return RBUS_ERROR_SUCCESS; 
+    ERROR_CHECK(pthread_mutex_unlock(&gMutex));
+    return rc;
 }
 
-/* Delete Subscription Record from global record and stop it's running thread */
+/* Stop the running thread of a subscription */
 void rbusInterval_RemoveSubscriptionRecord(
         rbusHandle_t handle,
         elementNode* propNode,
@@ -272,30 +332,46 @@ void rbusInterval_RemoveSubscriptionRecord(
     (void)(propNode);
     VERIFY_NULL(sub);
 
-    if (!gRecord)
+    sRecord* rec = NULL;
+    ERROR_CHECK(pthread_mutex_lock(&gMutex));
+    if (gRecord)
     {
-        return;
+        rec = sub_find(sub);
+        if(rec)
+            rec->sub = NULL; /*not found any more: only the thread uses it from now on*/
     }
-
-    sRecord* rec;
-    ERROR_CHECK(pthread_mutex_lock(&gMutex));
-    rec = sub_find(sub);
     ERROR_CHECK(pthread_mutex_unlock(&gMutex));
 
     if(rec)
     {
-        if(rec->running)
-        {
-            rec->running = 0;
-            ERROR_CHECK(pthread_cond_signal(&rec->cond));
-            ERROR_CHECK(pthread_join(rec->thread, NULL));
-        }
-        ERROR_CHECK(pthread_mutex_lock(&gMutex));
-        rtVector_RemoveItem(gRecord, rec, sub_Free);
-        ERROR_CHECK(pthread_mutex_unlock(&gMutex));
+        ERROR_CHECK(pthread_mutex_lock(&rec->mutex));
+        rec->running = 0;
+        ERROR_CHECK(pthread_cond_signal(&rec->cond));
+        ERROR_CHECK(pthread_mutex_unlock(&rec->mutex));
     }
     else
     {
-        RBUSLOG_ERROR("value not found\n");
+        RBUSLOG_DEBUG("value not found\n");
     }
 }
+
+/* Wait until no thread of a handle is left. Call after its subscriptions were removed, with no lock held. */
+void rbusInterval_CloseHandle(rbusHandle_t handle)
+{
+    size_t i = 0;
+    ERROR_CHECK(pthread_mutex_lock(&gMutex));
+    while(gRecord && i < rtVector_Size(gRecord))
+    {
+        sRecord* rec = (sRecord*)rtVector_At(gRecord, i);
+        if(rec && rec->handle == handle && !pthread_equal(rec->thread, pthread_self()))
+        {
+            ERROR_CHECK(pthread_cond_wait(&gCond, &gMutex));
+            i = 0;
+        }
+        else
+        {
+            i++;
+        }
+    }
+    ERROR_CHECK(pthread_mutex_unlock(&gMutex));
+}
diff --git a/src/rbus/rbus_intervalsubscription.h b/src/rbus/rbus_intervalsubscription.h
index 26bd0b5..9d7a501 100644
--- a/src/rbus/rbus_intervalsubscription.h
+++ b/src/rbus/rbus_intervalsubscription.h
@@ -28,6 +28,7 @@ extern "C" {
 
 rbusError_t rbusInterval_AddSubscriptionRecord(rbusHandle_t handle, elementNode* propNode, rbusSubscription_t* sub);
 void rbusInterval_RemoveSubscriptionRecord(rbusHandle_t handle, elementNode* propNode, rbusSubscription_t* sub);
+void rbusInterval_CloseHandle(rbusHandle_t handle);
 
 #ifdef __cplusplus
 }
diff --git a/src/rbus/rbus_subscriptions.c b/src/rbus/rbus_subscriptions.c
index 5f96b5e..4b90572 100644
--- a/src/rbus/rbus_subscriptions.c
+++ b/src/rbus/rbus_subscriptions.c
@@ -20,6 +20,7 @@
 #include "rbus_subscriptions.h"
 #include "rbus_buffer.h"
 #include "rbus_handle.h"
+#include "rbus_intervalsubscription.h"
 #include <rtMemory.h>
 #include <string.h>
 #include <assert.h>
@@ -75,6 +76,9 @@ static void subscriptionFree(void* p)
     rtListItem item;
     VERIFY_NULL(sub);
 
+    if(sub->interval)
+        rbusInterval_RemoveSubscriptionRecord(NULL, NULL, sub); /*removed with a table row, or at its end*/
+
     rtList_GetFront(sub->instances, &item);
     while(item)
     {
-- 
2.43.0


From 954c23c875d3ebc019f45fffcaa1bc3ea6c1d24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:44 +0000
Subject: [PATCH 25/46] fix: a row removed during a wildcard get does not fail
 the get

---
 src/rbus/rbus.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index b090549..3b1d065 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -1920,6 +1920,14 @@ rbusError_t get_recursive_wildcard_handler (rbusHandle_t handle, char const *par
                 result = get_recursive_wildcard_handler(handle, wildcardName, pRequestingComp, properties, pCount);
                 if (result != RBUS_ERROR_SUCCESS)
                 {
+                    snprintf (wildcardName, RBUS_MAX_NAME_LENGTH, "%s%s", instanceName, child->name);
+                    if (!retrieveInstanceElement(handleInfo->elementRoot, wildcardName))
+                    {
+                        /* the row was removed in the meantime */
+                        result = RBUS_ERROR_SUCCESS;
+                        child = child->nextSibling;
+                        continue;
+                    }
                     RBUSLOG_WARN("Something went wrong while retriving the datamodel value...");
                     break;
                 }
-- 
2.43.0


From 278527a85f957d667cf7aaebf18fca242fa3944e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:33 +0000
Subject: [PATCH 26/46] fix: the filter result goes only to the subscriber with
 that filter

rbusEvent_Publish put it into the shared event data, so that every subscriber
after a filtered one (and the caller) got a 'filter' that was not its own.
---
 src/rbus/rbus.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 3b1d065..51898f6 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -6087,6 +6087,8 @@ rbusError_t  rbusEvent_Publish(
     while(listItem)
     {
         bool publish = true;
+        rbusEvent_t event = *eventData;
+        rbusObject_t filterData = NULL;
 
         rtListItem_GetData(listItem, (void**)&subscription);
         if(!subscription || !subscription->eventName || !subscription->listener)
@@ -6120,8 +6122,14 @@ rbusError_t  rbusEvent_Publish(
                     rbusValue_t filterResult = NULL;
                     rbusValue_Init(&filterResult);
                     rbusValue_SetBoolean(filterResult, newResult != 0);
-                    rbusObject_SetValue(eventData->data, "filter", filterResult);
-                    rbusValue_Release(filterResult);                    
+                    /*in data of its own: subscribers without a filter, and the caller's object, don't get it*/
+                    rbusProperty_t prop;
+                    rbusObject_Init(&filterData, rbusObject_GetName(eventData->data));
+                    for(prop = rbusObject_GetProperties(eventData->data); prop; prop = rbusProperty_GetNext(prop))
+                        rbusObject_SetValue(filterData, rbusProperty_GetName(prop), rbusProperty_GetValue(prop));
+                    rbusObject_SetValue(filterData, "filter", filterResult);
+                    rbusValue_Release(filterResult);
+                    event.data = filterData;
                 }
                 else
                 {
@@ -6135,7 +6143,7 @@ rbusError_t  rbusEvent_Publish(
             rbusMessage msg;
             rbusMessage_Init(&msg);
 
-            rbusEventData_appendToMessage(eventData, subscription->filter, subscription->interval, subscription->duration, subscription->componentId, msg);
+            rbusEventData_appendToMessage(&event, subscription->filter, subscription->interval, subscription->duration, subscription->componentId, msg);
 
             RBUSLOG_DEBUG("rbusEvent_Publish: publishing event %s to listener %s", subscription->eventName, subscription->listener);
 
@@ -6155,6 +6163,8 @@ rbusError_t  rbusEvent_Publish(
                 RBUSLOG_ERROR("rbusEvent_Publish failed: rbus_publishSubscriberEvent return error %d", err);
             }
         }
+        if(filterData)
+            rbusObject_Release(filterData);
         rtListItem_GetNext(listItem, &listItem);
     }
     HANDLE_SUBS_MUTEX_UNLOCK(handle);
-- 
2.43.0


From e5500583ca6543421239e97175acd2f33c891c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:38 +0000
Subject: [PATCH 27/46] fix: make the handle's mutexes recursive

Both are taken again by their owner: an event handler that calls the bus, a value-change poll that publishes. With an error
checking mutex the inner unlock released the outer lock, so the rest of the outer section ran unprotected.
---
 src/rbus/rbus.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 51898f6..b39c884 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -3047,7 +3047,7 @@ rbusError_t rbus_open(rbusHandle_t* handle, char const* componentName)
     rtVector_Create(&tmpHandle->eventSubs);
     rtVector_Create(&tmpHandle->messageCallbacks);
     ERROR_CHECK(pthread_mutexattr_init(&attrib));
-    ERROR_CHECK(pthread_mutexattr_settype(&attrib, PTHREAD_MUTEX_ERRORCHECK));
+    ERROR_CHECK(pthread_mutexattr_settype(&attrib, PTHREAD_MUTEX_RECURSIVE)); /*a handler may call back into the bus*/
     ERROR_CHECK(pthread_mutex_init(&tmpHandle->handle_eventSubsMutex, &attrib));
     ERROR_CHECK(pthread_mutex_init(&tmpHandle->handle_subsMutex, &attrib));
 
-- 
2.43.0


From b73444b312a337fbeb9b0a1a747add7db562a4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:08 +0000
Subject: [PATCH 28/46] fix: initialize the element mutex statically

It was initialized with the first element of the process, when a request for that element could already be using it.
---
 src/rbus/rbus.c         |  1 -
 src/rbus/rbus_element.c | 22 ++--------------------
 src/rbus/rbus_element.h |  1 -
 3 files changed, 2 insertions(+), 22 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index b39c884..8c1d6ec 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -2953,7 +2953,6 @@ static void _rbus_open_pre_initialize(bool retain)
     }
     else if(!retain && sRetained)
     {
-        rbusElement_mutex_destroy();
         sRetained = false;
     }
 }
diff --git a/src/rbus/rbus_element.c b/src/rbus/rbus_element.c
index 2bd8602..c084a53 100644
--- a/src/rbus/rbus_element.c
+++ b/src/rbus/rbus_element.c
@@ -17,6 +17,7 @@
  * limitations under the License.
 */
 
+#define _GNU_SOURCE 1
 #include <stdio.h>
 #include <string.h>
 #include <stdlib.h>
@@ -41,8 +42,7 @@
 #define UNLOCK() ERROR_CHECK(pthread_mutex_unlock(&element_mutex))
 
 elementNode* pruneNode = NULL;
-pthread_mutex_t element_mutex;
-static int mutex_init = 0;
+static pthread_mutex_t element_mutex = PTHREAD_RECURSIVE_MUTEX_INITIALIZER_NP;
 
 /* A row can be removed at any time, also while other threads are using nodes of it that they found before.
    Nodes taken out of the tree are kept until no thread is using any node. */
@@ -267,15 +267,6 @@ elementNode* insertElement(elementNode* root, rbusDataElement_t* elem)
     elementNode* nextNode = NULL;
     int ret = 0, createChild = 0;
     char buff[RBUS_MAX_NAME_LENGTH];
-    pthread_mutexattr_t attrib;
-
-    if(!mutex_init)
-    {
-       ERROR_CHECK(pthread_mutexattr_init(&attrib));
-       ERROR_CHECK(pthread_mutexattr_settype(&attrib, PTHREAD_MUTEX_RECURSIVE));
-       ERROR_CHECK(pthread_mutex_init(&element_mutex, &attrib));
-       mutex_init = 1;
-    }
 
     if(currentNode == NULL || elem == NULL)
     {
@@ -1252,12 +1243,3 @@ char* getPropertyChangeComponent(elementNode* node, char const* selfName, int pe
     UNLOCK();
     return comp;
 }
-
-void rbusElement_mutex_destroy(void)
-{
-    if(mutex_init)
-    {
-      ERROR_CHECK(pthread_mutex_destroy(&element_mutex));
-      mutex_init = 0;
-    }
-}
diff --git a/src/rbus/rbus_element.h b/src/rbus/rbus_element.h
index dd0a98b..5514bb0 100644
--- a/src/rbus/rbus_element.h
+++ b/src/rbus/rbus_element.h
@@ -97,7 +97,6 @@ void deleteTableRow(elementNode* rowNode);
 void getPropertyInstanceNames(elementNode* root, char const* query, rtVector propNameList);
 void setPropertyChangeComponent(elementNode* node, char const* componentName);
 char* getPropertyChangeComponent(elementNode* node, char const* selfName, int period);
-void rbusElement_mutex_destroy(void);
 
 #ifdef __cplusplus
 }
-- 
2.43.0


From 57026ee96b7daa01d97cec650f69e332ee906b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:27 +0000
Subject: [PATCH 29/46] fix: asynchronous subscriptions: races between retries,
 unsubscribe and close

The retry thread walked and changed its list while other threads added and removed items: use after free when a pending
subscription was removed by unsubscribe, close or its own response handler. A subscription accepted by the provider while it was
being removed stayed there. The response handler was called before the subscription was in place, and an unsubscribe of a pending
one with rbusEvent_Unsubscribe failed. rbus_close dropped only the first pending one of the handle. The timeout was ignored. A
failed attempt to renew a subscription left it marked as subscribed.
---
 src/rbus/rbus.c                | 145 ++++----
 src/rbus/rbus_asyncsubscribe.c | 588 ++++++++++++++++-----------------
 src/rbus/rbus_asyncsubscribe.h |   4 +-
 3 files changed, 368 insertions(+), 369 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 8c1d6ec..73cc99c 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -1361,35 +1361,47 @@ static void _client_disconnect_callback_handler(const char * listener)
     rbusHandleList_ClientDisconnect(listener);
 }
 
+/*called with the handle's eventSubs mutex locked*/
 void _subscribe_async_callback_handler(rbusHandle_t handle, rbusEventSubscription_t* subscription, rbusError_t error, uint32_t subscriptionId)
 {
     struct _rbusHandle* handleInfo = (struct _rbusHandle*)handle;
+    rbusEventSubscriptionInternal_t* subInternal = NULL;
+    rbusEventSubscription_t copy = *subscription;
+
+    /*the handler may unsubscribe*/
+    copy.eventName = strdup(subscription->eventName);
+    if(copy.filter)
+        rbusFilter_Retain(copy.filter);
 
-    subscription->asyncHandler(subscription->handle, subscription, error);
-    if(subscription)
+    subInternal = rbusEventSubscription_find(handleInfo->eventSubs, subscription->eventName,
+                    subscription->filter, subscription->interval, subscription->duration, false);
+    if(error == RBUS_ERROR_SUCCESS)
     {
-        if(error == RBUS_ERROR_SUCCESS)
+        if(subInternal)
         {
-            HANDLE_EVENTSUBS_MUTEX_LOCK(handle);
-            rbusEventSubscriptionInternal_t* subInternal = NULL;
-            if ((subInternal = rbusEventSubscription_find(handleInfo->eventSubs, subscription->eventName,
-                            subscription->filter, subscription->interval, subscription->duration, false)) != NULL)
-            {
-                rtVector_RemoveItem(handleInfo->eventSubs, subInternal, rbusEventSubscriptionInternal_free);
-            }
-            subInternal = rt_malloc(sizeof(rbusEventSubscriptionInternal_t));
-            subInternal->sub = subscription;
-            subInternal->dirty = false;
-            subInternal->subscriptionId = subscriptionId;
-            subInternal->rawData = false;
-            rtVector_PushBack(handleInfo->eventSubs, subInternal);
-            HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
+            rtVector_RemoveItem(handleInfo->eventSubs, subInternal, rbusEventSubscriptionInternal_free);
         }
-        else
+        subInternal = rt_malloc(sizeof(rbusEventSubscriptionInternal_t));
+        subInternal->sub = subscription;
+        subInternal->dirty = false;
+        subInternal->subscriptionId = subscriptionId;
+        subInternal->rawData = false;
+        rtVector_PushBack(handleInfo->eventSubs, subInternal);
+    }
+    else
+    {
+        if(subInternal)
         {
-            rbusEventSubscription_free(subscription);
+            subInternal->dirty = true; /*as it was before we tried to subscribe again*/
         }
+        rbusEventSubscription_free(subscription);
     }
+
+    copy.asyncHandler(handle, &copy, error);
+
+    if(copy.filter)
+        rbusFilter_Release(copy.filter);
+    free((char*)copy.eventName);
 }
 
 int _event_callback_handler (char const* objectName, char const* eventName, rbusMessage message, void* userData)
@@ -2726,6 +2738,11 @@ static void _subscribe_callback_handler (rbusHandle_t handle, rbusMessage reques
                         ELM_PRIVATE_UNLOCK(el);
                         val = rbusProperty_GetValue(tmpProperties);
                         rbusObject_SetValue(data, "initialValue", val);
+                        if(err != RBUS_ERROR_SUCCESS)
+                        {
+                            rbusMessage_SetInt32(*response, 0); /* No initial value */
+                            rbusProperty_Release(tmpProperties);
+                        }
                     }
                     else
                     {
@@ -3209,6 +3226,8 @@ rbusError_t rbus_close(rbusHandle_t handle)
         ret = RBUS_ERROR_INVALID_HANDLE;
     }
 
+    rbusAsyncSubscribe_CloseHandle(handle); /*before its subscriptions are removed*/
+
     HANDLE_EVENTSUBS_MUTEX_LOCK(handle);
     if(handleInfo->eventSubs)
     {
@@ -3236,8 +3255,6 @@ rbusError_t rbus_close(rbusHandle_t handle)
         rbusMessage_RemoveAllListeners(handle);
     }
 
-    rbusAsyncSubscribe_CloseHandle(handle);
-
     LockMutex();
     sClosing++; /*keeps the connection*/
     UnlockMutex();
@@ -5122,39 +5139,8 @@ static rbusError_t rbusEvent_SubscribeWithRetries(
     int destNotFoundTimeout;
     bool wasDirty = false;
     struct _rbusHandle* handleInfo = (struct _rbusHandle*)handle;
-    HANDLE_EVENTSUBS_MUTEX_LOCK(handle);
-    if ((subInternal = rbusEventSubscription_find(handleInfo->eventSubs, eventName, filter, interval, duration, rawData)) != NULL)
-    {
-        /*Allow only for dirty subscription*/
-        if (subInternal->dirty)
-        {
-            subInternal->dirty = false;
-            wasDirty = true;
-        }
-        else
-        {
-            HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
-            return RBUS_ERROR_SUBSCRIPTION_ALREADY_EXIST;
-        }
-    }
-    else if (rbusAsyncSubscribe_GetSubscription(handle, eventName, filter))
-    {
-        HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
-        return RBUS_ERROR_SUBSCRIPTION_ALREADY_EXIST;
-    }
 
-    HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
-
-    if(timeout == -1)
-    {
-        destNotFoundTimeout = rbusHandle_FetchSubscribeTimeout(handle);
-    }
-    else
-    {
-        destNotFoundTimeout = timeout * 1000; /*convert seconds to milliseconds */
-    }
-
-    sub = rt_malloc(sizeof(rbusEventSubscription_t));
+    sub = rt_calloc(1, sizeof(rbusEventSubscription_t));
 
     sub->handle = handle;
     sub->eventName = strdup(eventName);
@@ -5168,16 +5154,42 @@ static rbusError_t rbusEvent_SubscribeWithRetries(
     if(sub->filter)
         rbusFilter_Retain(sub->filter);
 
+    HANDLE_EVENTSUBS_MUTEX_LOCK(handle);
+    subInternal = rbusEventSubscription_find(handleInfo->eventSubs, eventName, filter, interval, duration, rawData);
+    /*Allow only for dirty subscription*/
+    if((subInternal && !subInternal->dirty) || (!rawData && rbusAsyncSubscribe_GetSubscription(sub)))
+    {
+        HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
+        rbusEventSubscription_free(sub);
+        return RBUS_ERROR_SUBSCRIPTION_ALREADY_EXIST;
+    }
+    if(subInternal)
+    {
+        subInternal->dirty = false;
+        wasDirty = true;
+    }
+
     payload = rbusEvent_CreateSubscribePayload(sub, handleInfo->componentId);
 
     if (sub->asyncHandler)
     {
         //FIXME: this should take the payload too (mrollins) because rbus_asynsubscribe is passing NULL for filter to rbus_subscribeToEvent
-        rbusAsyncSubscribe_AddSubscription(sub, payload);
+        rbusAsyncSubscribe_AddSubscription(sub, payload, timeout > 0 ? (uint32_t)timeout * 1000 : rbusHandle_FetchSubscribeTimeout(handle));
+        HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
 
         rbusMessage_Release(payload);
         return RBUS_ERROR_SUCCESS;
     }
+    HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
+
+    if(timeout == -1)
+    {
+        destNotFoundTimeout = rbusHandle_FetchSubscribeTimeout(handle);
+    }
+    else
+    {
+        destNotFoundTimeout = timeout * 1000; /*convert seconds to milliseconds */
+    }
 
     for(;;)
     {
@@ -5231,17 +5243,22 @@ static rbusError_t rbusEvent_SubscribeWithRetries(
         subInternal->dirty = false;
         subInternal->rawData = rawData;
         rtVector_PushBack(handleInfo->eventSubs, subInternal);
-        HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
         if(publishOnSubscribe)
         {
             rbusMessage_GetInt32(response, &initial_value);
             if(initial_value)
             {
                 _master_event_callback_handler(NULL, eventName, response, userData);
+                /*the handler can have unsubscribed*/
+                subInternal = rbusEventSubscription_find(handleInfo->eventSubs, eventName, filter, interval, duration, rawData);
             }
         }
         rbusMessage_GetInt32(response, &subscriptionId);
-        subInternal->subscriptionId = subscriptionId;
+        if(subInternal)
+        {
+            subInternal->subscriptionId = subscriptionId;
+        }
+        HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
         if(response)
             rbusMessage_Release(response);
         RBUSLOG_INFO("%s subscribe retries succeeded", eventName);
@@ -5498,9 +5515,12 @@ rbusError_t rbusEvent_Unsubscribe(
     VERIFY_HANDLE(handle);
     struct _rbusHandle* handleInfo = (struct _rbusHandle*)handle;
     rbusEventSubscriptionInternal_t* subInternal;
+    rbusEventSubscription_t sub = {0};
+    bool pending;
 
     VERIFY_NULL(handle);
     VERIFY_NULL(eventName);
+    sub.eventName = eventName;
 
     if (handleInfo->m_handleType != RBUS_HWDL_TYPE_REGULAR)
         return RBUS_ERROR_INVALID_HANDLE;
@@ -5510,6 +5530,7 @@ rbusError_t rbusEvent_Unsubscribe(
     /*the use of rtVector is inefficient here.  I have to loop through the vector to find the sub by name, 
         then call RemoveItem, which loops through again to find the item by address to destroy */
     HANDLE_EVENTSUBS_MUTEX_LOCK(handle);
+    pending = _rbus_AsyncSubscribe_remove_subscription(handle, &sub) == RBUS_ERROR_SUCCESS;
     subInternal = rbusEventSubscription_find(handleInfo->eventSubs, eventName, NULL, 0, 0, false);
 
     if(subInternal)
@@ -5548,7 +5569,7 @@ rbusError_t rbusEvent_Unsubscribe(
             }
         }
     }
-    else
+    else if(!pending)
     {
         RBUSLOG_INFO("%s no existing subscription found", eventName);
         HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
@@ -5841,6 +5862,8 @@ rbusError_t _rbus_AsyncSubscribe_remove_subscription(
     sub.handle = handle;
     sub.eventName = subscription->eventName;
     sub.filter = subscription->filter;
+    sub.interval = subscription->interval;
+    sub.duration = subscription->duration;
 
     sub_removed = rbusAsyncSubscribe_RemoveSubscription(&sub);
     if(sub_removed)
@@ -5849,7 +5872,6 @@ rbusError_t _rbus_AsyncSubscribe_remove_subscription(
     }
     else
     {
-        RBUSLOG_INFO("%s no existing subscription found", subscription->eventName);
         errorcode = RBUS_ERROR_INVALID_OPERATION; //TODO - is the the right error to return
     }
     return errorcode;
@@ -5884,6 +5906,7 @@ rbusError_t rbusEvent_UnsubscribeEx(
     {
         HANDLE_EVENTSUBS_MUTEX_LOCK(handleInfo);
         rbusEventSubscriptionInternal_t* subInternal = NULL;
+        rbusError_t pending = _rbus_AsyncSubscribe_remove_subscription(handle, &subscription[i]);
         subInternal = rbusEventSubscription_find(handleInfo->eventSubs, subscription[i].eventName,
                 subscription[i].filter, subscription[i].interval, subscription[i].duration, false);
         if(subInternal)
@@ -5907,7 +5930,11 @@ rbusError_t rbusEvent_UnsubscribeEx(
         }
         else
         {
-            errorcode = _rbus_AsyncSubscribe_remove_subscription(handle, &subscription[i]);
+            if(pending != RBUS_ERROR_SUCCESS)
+            {
+                RBUSLOG_INFO("%s no existing subscription found", subscription[i].eventName);
+            }
+            errorcode = pending;
         }
         HANDLE_EVENTSUBS_MUTEX_UNLOCK(handleInfo);
     }
diff --git a/src/rbus/rbus_asyncsubscribe.c b/src/rbus/rbus_asyncsubscribe.c
index 48d0b75..f292ac8 100644
--- a/src/rbus/rbus_asyncsubscribe.c
+++ b/src/rbus/rbus_asyncsubscribe.c
@@ -21,12 +21,12 @@
 #include "rbus_log.h"
 #include "rbus_handle.h"
 #include <rtTime.h>
-#include <rtList.h>
 #include <rtMemory.h>
 #include <stdlib.h>
 #include <pthread.h>
 #include <string.h>
 #include <errno.h>
+#include <stdbool.h>
 
 #define ERROR_CHECK(CMD) \
 { \
@@ -37,348 +37,283 @@
   } \
 }
 #define VERIFY_NULL(T) if(NULL == T){ return; }
-#define LOCK() ERROR_CHECK(pthread_mutex_lock(&gRetrier->mutexQueue))
-#define UNLOCK() ERROR_CHECK(pthread_mutex_unlock(&gRetrier->mutexQueue))
-
+#define LOCK() ERROR_CHECK(pthread_mutex_lock(&gMutex))
+#define UNLOCK() ERROR_CHECK(pthread_mutex_unlock(&gMutex))
 
 /*defined in rbus.c*/
 void _subscribe_async_callback_handler(rbusHandle_t handle, rbusEventSubscription_t* subscription, rbusError_t error, uint32_t subscriptionId);
 int _event_callback_handler(char const* objectName, char const* eventName, rbusMessage message, void* userData);
 void rbusEventSubscription_free(void* p);
 
-typedef struct AsyncSubscribeRetrier_t
+typedef enum AsyncSubscriptionState_t
 {
-    rtList items;
-    pthread_cond_t condItemAdded;
-    pthread_mutex_t mutexQueue;
-    int isRunning;
-    pthread_t threadId;
-} AsyncSubscribeRetrier_t;
+    ASYNC_SUB_WAITING,   /*for its next attempt*/
+    ASYNC_SUB_SENDING,   /*the retry thread is sending the request, or undoing it*/
+    ASYNC_SUB_DONE       /*the retry thread has the result and is about to deliver it*/
+} AsyncSubscriptionState_t;
 
 typedef struct AsyncSubscription_t
 {
+    struct AsyncSubscription_t* next;
+    AsyncSubscriptionState_t state;
+    bool removed;        /*by unsubscribe or close: the result isn't delivered any more*/
     rbusEventSubscription_t* subscription;
     rbusMessage payload;
+    uint32_t timeout;
     int nextWaitTime;
     rtTime_t startTime;
     rtTime_t nextRetryTime;
+    rbusError_t result;
+    uint32_t subscriptionId;
 } AsyncSubscription_t;
 
-static AsyncSubscribeRetrier_t* gRetrier = NULL;
-
-static void rbusAsyncSubscribeRetrier_FreeSubscription(void *pitem)
+/* The retry thread runs as long as there are items in the list. The item it is working on is in gCurrent (and, unless it has
+   been removed, also in the list), and only the retry thread frees it.
+   Lock order: the handle's eventSubs mutex before gMutex. */
+static pthread_mutex_t gMutex = PTHREAD_MUTEX_INITIALIZER;
+static pthread_cond_t gCond;     /*an item was added or removed*/
+static pthread_cond_t gCondDone; /*the retry thread finished with gCurrent*/
+static bool gInitialized = false;
+static bool gRunning = false;
+static pthread_t gThread;
+static AsyncSubscription_t* gItems = NULL;
+static AsyncSubscription_t* gCurrent = NULL;
+static rbusHandle_t gCurrentHandle = NULL;
+
+static void freeItem(AsyncSubscription_t* item)
 {
-    AsyncSubscription_t* sub = (AsyncSubscription_t*)pitem;
-    if(!sub)
-        return;
-    if(sub->subscription)
-        rbusEventSubscription_free(sub->subscription);
-    rbusMessage_Release(sub->payload);
-    free(pitem);
+    if(item->subscription)
+        rbusEventSubscription_free(item->subscription);
+    rbusMessage_Release(item->payload);
+    free(item);
 }
 
-static int rbusAsyncSubscribeRetrier_CompareHandle(const void *pitem, const void *phandle)
+static void unlinkItem(AsyncSubscription_t* item)
 {
-    AsyncSubscription_t* item = (AsyncSubscription_t*)pitem;
-    if((!item)||(!phandle))
-        return 1;
-    if(item->subscription->handle == phandle)
-        return 0;
-    else
-        return 1;
+    AsyncSubscription_t** pp = &gItems;
+    while(*pp && *pp != item)
+        pp = &(*pp)->next;
+    if(*pp)
+        *pp = item->next;
 }
 
-static int rbusAsyncSubscribeRetrier_CompareSubscription(const void *pitem, const void *psub)
+static bool isSame(AsyncSubscription_t* item, rbusEventSubscription_t* sub)
 {
-    AsyncSubscription_t* item = (AsyncSubscription_t*)pitem;
-    rbusEventSubscription_t* sub = (rbusEventSubscription_t*)psub;
-    if((!item)||(!sub))
-        return 1;
-
-    if (item->subscription && (item->subscription->handle == sub->handle) &&
-        strcmp(item->subscription->eventName, sub->eventName) == 0 && 
-        rbusFilter_Compare(item->subscription->filter, sub->filter) == 0)
-        return 0;
-    else
-        return 1;
+    return item->subscription &&
+        item->subscription->handle == sub->handle &&
+        strcmp(item->subscription->eventName, sub->eventName) == 0 &&
+        rbusFilter_Compare(item->subscription->filter, sub->filter) == 0 &&
+        item->subscription->interval == sub->interval &&
+        item->subscription->duration == sub->duration;
 }
 
-static int rbusAsyncSubscribeRetrier_DetermineNextSendTime(rtTime_t* nextSendTime)
+static AsyncSubscription_t* findItem(rbusEventSubscription_t* sub)
 {
-    rtTime_t now;
-    rtListItem li;
-    char tbuff[200];
-
-    //find the earliest nextRetryTime using nextSendTime to compare and store
-    rtTime_Now(&now);
-    rtTime_Later(&now, RBUS_SUBSCRIBE_MAXWAIT + 1000, nextSendTime);
-
-    RBUSLOG_DEBUG("now=%s", rtTime_ToString(&now, tbuff));
-
-    rtList_GetFront(gRetrier->items, &li);
-
-    if(!li)
+    AsyncSubscription_t* item;
+    for(item = gItems; item; item = item->next)
     {
-        return 0;
+        if(isSame(item, sub))
+            break;
     }
+    return item;
+}
 
-    while(li)
-    {
-        AsyncSubscription_t* item;
-        rtListItem_GetData(li, (void**)&item);
-        RBUSLOG_INFO("item=%s", rtTime_ToString(&item->nextRetryTime, tbuff));
-
-        if(rtTime_Compare(&item->nextRetryTime, nextSendTime) < 0)
-        {
-          *nextSendTime = item->nextRetryTime;
-        }
-
-        rtListItem_GetNext(li, &li);
-     }
-
-    //if nextSendTime is past due, return 1 so the caller knows to send requests now
-    if(rtTime_Compare(nextSendTime, &now) <= 0)
+static void unsubscribe(AsyncSubscription_t* item)
+{
+    RBUSLOG_INFO("%s unsubscribing", item->subscription->eventName);
+    if(rbus_unsubscribeFromEvent(NULL, item->subscription->eventName, item->payload, false) != RBUSCORE_SUCCESS)
     {
-        RBUSLOG_INFO("subs past due");
-        return 1;
+        RBUSLOG_WARN("%s unsubscribe failed", item->subscription->eventName);
     }
-
-#if 0
-    //add a second to avoid doing a cond_timedwait for less then a second
-    //this will essentially batch all items due between now and this next time
-    rtTime_Later(nextSendTime, 1000, nextSendTime);
-#endif
-    RBUSLOG_INFO("subs due in %d miliseconds nextSendTime=%s",
-                rtTime_Elapsed(&now, nextSendTime), 
-                rtTime_ToString(nextSendTime, tbuff));
-
-    return 0;//meaning there's nothing past due currently
 }
 
-static void rbusAsyncSubscribeRetrier_SendSubscriptionRequests()
+/*returns true if the item has a result, false if it has to be sent again*/
+static bool sendRequest(AsyncSubscription_t* item)
 {
-    rtListItem li;
+    rbusCoreError_t coreerr;
     rtTime_t now;
+    uint32_t elapsed;
+    int providerError = RBUS_ERROR_SUCCESS;
+    rbusMessage response = NULL;
 
-    RBUSLOG_DEBUG("%s enter", __FUNCTION__);
+    RBUSLOG_INFO("%s subscribing", item->subscription->eventName);
+
+    coreerr = rbus_subscribeToEventTimeout(NULL, item->subscription->eventName,
+                _event_callback_handler, item->payload, item->subscription, &providerError, 0, false, &response, false);
 
     rtTime_Now(&now);
 
-    rtList_GetFront(gRetrier->items, &li);
+    elapsed = rtTime_Elapsed(&item->startTime, &now);
 
-    while(li)
+    if(coreerr == RBUSCORE_ERROR_ENTRY_NOT_FOUND &&  /*the only error that means provider not found yet*/
+       elapsed < item->timeout)    /*if we haven't timeout out yet*/
     {
-        AsyncSubscription_t* item = NULL;
+        if(response)
+            rbusMessage_Release(response);
 
-        rtListItem_GetData(li, (void**)&item);
+        if(item->nextWaitTime == 0)
+            item->nextWaitTime = 1000; //miliseconds
+        else
+            item->nextWaitTime *= 2;//just double the time
 
-        if(rtTime_Compare(&item->nextRetryTime, &now) <= 0)
-        {
-            rbusCoreError_t coreerr;
-            uint32_t elapsed;
-            int providerError;
-            rbusMessage response = NULL;
-            uint32_t subscriptionId = 0;
+        //apply a limit to our doubling
+        if(item->nextWaitTime > RBUS_SUBSCRIBE_MAXWAIT)
+            item->nextWaitTime = RBUS_SUBSCRIBE_MAXWAIT;
 
+        //update nextRetryTime to nextWaitTime miliseconds from now, without exceeding the timeout
+        if(elapsed + item->nextWaitTime < item->timeout)
+        {
+            rtTime_Later(&now, item->nextWaitTime, &item->nextRetryTime);
+        }
+        else
+        {
+            //its possible to have the odd situation, based on how timeout/subscribeMaxWait are configured,
+            //where this final retry happens very close to the previous retry (e.g. ... wait 60, sub, wait 60, sub, wait 1, sub)
+            rtTime_Later(&item->startTime, item->timeout, &item->nextRetryTime);
+        }
 
-            RBUSLOG_INFO("%s subscribing", item->subscription->eventName);
+        RBUSLOG_INFO("%s no provider. retry in %d ms with %d left",
+            item->subscription->eventName,
+            rtTime_Elapsed(&now, &item->nextRetryTime),
+            item->timeout - elapsed);
+        return false;
+    }
 
-            coreerr = rbus_subscribeToEventTimeout(NULL, item->subscription->eventName,
-                        _event_callback_handler, item->payload, item->subscription, &providerError, 0, false, &response, false);
+    if(coreerr == RBUSCORE_SUCCESS || (coreerr != RBUSCORE_ERROR_ENTRY_NOT_FOUND && providerError == RBUS_ERROR_SUBSCRIPTION_ALREADY_EXIST))
+    {
+        /*the provider already has it if our request was accepted but its response got lost*/
+        if(response)
+            rbusMessage_GetUInt32(response, &item->subscriptionId);
+        RBUSLOG_INFO("%s subscribe retries succeeded", item->subscription->eventName);
+        item->result = RBUS_ERROR_SUCCESS;
+    }
+    else if(coreerr == RBUSCORE_ERROR_ENTRY_NOT_FOUND)
+    {
+        RBUSLOG_INFO("%s all subscribe retries failed and no provider found", item->subscription->eventName);
+        RBUSLOG_WARN("EVENT_SUBSCRIPTION_FAIL_NO_PROVIDER_COMPONENT  %s", item->subscription->eventName);/*RDKB-33658-AC7*/
+        item->result = RBUS_ERROR_TIMEOUT;
+    }
+    else if(providerError != RBUS_ERROR_SUCCESS)
+    {
+        RBUSLOG_INFO("%s subscribe retries failed due provider error %d", item->subscription->eventName, providerError);
+        RBUSLOG_WARN("EVENT_SUBSCRIPTION_FAIL_INVALID_INPUT  %s", item->subscription->eventName);/*RDKB-33658-AC9*/
+        item->result = providerError;
+    }
+    else
+    {
+        RBUSLOG_INFO("%s subscribe retries failed due to core error %d", item->subscription->eventName, coreerr);
+        item->result = RBUS_ERROR_BUS_ERROR;
+    }
+    if(response)
+        rbusMessage_Release(response);
+    return true;
+}
 
-            rtTime_Now(&now);
+/*called and returns with gMutex locked*/
+static void processItem(AsyncSubscription_t* item)
+{
+    bool done;
+    rbusHandle_t handle = item->subscription->handle;
 
-            elapsed = rtTime_Elapsed(&item->startTime, &now);
+    gCurrent = item;
+    gCurrentHandle = handle;
+    item->state = ASYNC_SUB_SENDING;
+    UNLOCK();
+    done = sendRequest(item);
+    LOCK();
 
-            if(coreerr == RBUSCORE_ERROR_ENTRY_NOT_FOUND &&  /*the only error that means provider not found yet*/
-             elapsed < rbusHandle_FetchSubscribeTimeout(item->subscription->handle))    /*if we haven't timeout out yet*/
-            {
-                if(item->nextWaitTime == 0)
-                    item->nextWaitTime = 1000; //miliseconds
-                else
-                    item->nextWaitTime *= 2;//just double the time
-
-                //apply a limit to our doubling
-                if(item->nextWaitTime > RBUS_SUBSCRIBE_MAXWAIT)
-                  item->nextWaitTime = RBUS_SUBSCRIBE_MAXWAIT;
-
-                //update nextRetryTime to nextWaitTime miliseconds from now, without exceeding subscribeTimeout
-                if(elapsed + item->nextWaitTime < rbusHandle_FetchSubscribeTimeout(item->subscription->handle))
-                {
-                    rtTime_Later(&now, item->nextWaitTime, &item->nextRetryTime);
-                }
-                else
-                {
-                    //its possible to have the odd situation, based on how subscribeTimeout/subscribeMaxWait are configured, 
-                    //where this final retry happens very close to the previous retry (e.g. ... wait 60, sub, wait 60, sub, wait 1, sub)
-                    rtTime_Later(&item->startTime, rbusHandle_FetchSubscribeTimeout(item->subscription->handle), &item->nextRetryTime);
-                }
-
-                RBUSLOG_INFO("%s no provider. retry in %d ms with %d left",
-                    item->subscription->eventName, 
-                    rtTime_Elapsed(&now, &item->nextRetryTime), 
-                    rbusHandle_FetchSubscribeTimeout(item->subscription->handle)- elapsed );
-            }
-            else
-            {
-                rbusError_t responseErr;
-                rtListItem tmp;
-
-                if(coreerr == RBUSCORE_SUCCESS)
-                {
-                    if(response)
-                        rbusMessage_GetUInt32(response, &subscriptionId);
-                    RBUSLOG_INFO("%s subscribe retries succeeded", item->subscription->eventName);
-                    responseErr = RBUS_ERROR_SUCCESS;
-                    if(response)
-                        rbusMessage_Release(response);
-                }
-                else
-                {
-                    if(coreerr == RBUSCORE_ERROR_ENTRY_NOT_FOUND)
-                    {
-                        RBUSLOG_INFO("%s all subscribe retries failed and no provider found", item->subscription->eventName);
-                        RBUSLOG_WARN("EVENT_SUBSCRIPTION_FAIL_NO_PROVIDER_COMPONENT  %s", item->subscription->eventName);/*RDKB-33658-AC7*/
-                        responseErr = RBUS_ERROR_TIMEOUT;
-                    }
-                    else if(providerError != RBUS_ERROR_SUCCESS)
-                    {
-                        RBUSLOG_INFO("%s subscribe retries failed due provider error %d", item->subscription->eventName, providerError);
-                        RBUSLOG_WARN("EVENT_SUBSCRIPTION_FAIL_INVALID_INPUT  %s", item->subscription->eventName);/*RDKB-33658-AC9*/
-                        responseErr = providerError;
-                    }
-                    else
-                    {  
-                        RBUSLOG_INFO("%s subscribe retries failed due to core error %d", item->subscription->eventName, coreerr);
-                        responseErr = RBUS_ERROR_BUS_ERROR;
-                    }
-                    if(response)
-                        rbusMessage_Release(response);
-                }
-
-                _subscribe_async_callback_handler(item->subscription->handle, item->subscription, responseErr, subscriptionId);
-                //store the next item, because we are removing this li item from list
-                LOCK();
-                item->subscription = NULL;
-                rtListItem_GetNext(li, &tmp); 
-                rtList_RemoveItem(gRetrier->items, li, rbusAsyncSubscribeRetrier_FreeSubscription);
-                UNLOCK();
-                li = tmp;
-                continue;//li is already the next item so avoid GetNext below
-            }
+    if(item->removed)
+    {
+        if(done && item->result == RBUS_ERROR_SUCCESS)
+        {
+            UNLOCK();
+            unsubscribe(item);
+            LOCK();
         }
-        rtListItem_GetNext(li, &li);    
     }
-    RBUSLOG_DEBUG("%s exit", __FUNCTION__);
+    else if(!done)
+    {
+        item->state = ASYNC_SUB_WAITING;
+        item = NULL;
+    }
+    else
+    {
+        /*whoever holds the eventSubs mutex sees the subscription either here or, with its result delivered, in eventSubs*/
+        item->state = ASYNC_SUB_DONE;
+        UNLOCK();
+        HANDLE_EVENTSUBS_MUTEX_LOCK(handle);
+        LOCK();
+        if(!item->removed)
+        {
+            rbusEventSubscription_t* subscription = item->subscription;
+            unlinkItem(item);
+            item->removed = true;
+            item->subscription = NULL;
+            UNLOCK();
+            _subscribe_async_callback_handler(handle, subscription, item->result, item->subscriptionId);
+            LOCK();
+        }
+        UNLOCK();
+        HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
+        LOCK();
+    }
+
+    gCurrent = NULL;
+    if(item)
+        freeItem(item);
+    ERROR_CHECK(pthread_cond_broadcast(&gCondDone));
 }
 
 static void* AsyncSubscribeRetrier_threadFunc(void* data)
 {
     (void)data;
     LOCK();
-    while(gRetrier->isRunning)
+    while(gItems)
     {
-        rtTime_t nextSendTime;
+        rtTime_t now;
+        AsyncSubscription_t* item = gItems;
+        AsyncSubscription_t* it;
 
-        while(rbusAsyncSubscribeRetrier_DetermineNextSendTime(&nextSendTime))
+        for(it = gItems->next; it; it = it->next)
         {
-            UNLOCK();
-            rbusAsyncSubscribeRetrier_SendSubscriptionRequests();
-            LOCK();
+            if(rtTime_Compare(&it->nextRetryTime, &item->nextRetryTime) < 0)
+                item = it;
         }
 
-        if(gRetrier->isRunning)
+        rtTime_Now(&now);
+        if(rtTime_Compare(&item->nextRetryTime, &now) <= 0)
+        {
+            processItem(item);
+        }
+        else
         {
-            char tbuff[200];
             rtTimespec_t ts;
-            int err;
-
-            RBUSLOG_DEBUG("timedwait until %s", rtTime_ToString(&nextSendTime, tbuff));
- 
-            err = pthread_cond_timedwait(&gRetrier->condItemAdded,
-                                         &gRetrier->mutexQueue,
-                                         rtTime_ToTimespec(&nextSendTime, &ts));
+            int err = pthread_cond_timedwait(&gCond, &gMutex, rtTime_ToTimespec(&item->nextRetryTime, &ts));
             if(err != 0 && err != ETIMEDOUT)
             {
                 RBUSLOG_ERROR("Error %d:%s running command pthread_cond_timedwait", err, strerror(err));
             }
-
-            RBUSLOG_DEBUG("waked up");
-            //either we timed out or a new subscription was added
-            //in either case, loop back to top and things will get handled properly
         }
     }
+    gRunning = false;
     UNLOCK();
     return NULL;
 }
 
-static void rbusAsyncSubscribeRetrier_Create()
-{
-    pthread_mutexattr_t mattrib;
-    pthread_condattr_t cattrib;
-
-    RBUSLOG_DEBUG("%s enter", __FUNCTION__);
-
-    gRetrier = rt_malloc(sizeof(struct AsyncSubscribeRetrier_t));
-
-    gRetrier->isRunning = true;
-    rtList_Create(&gRetrier->items);
-
-    ERROR_CHECK(pthread_mutexattr_init(&mattrib));
-    ERROR_CHECK(pthread_mutexattr_settype(&mattrib, PTHREAD_MUTEX_ERRORCHECK));
-    ERROR_CHECK(pthread_mutex_init(&gRetrier->mutexQueue, &mattrib));  
-    ERROR_CHECK(pthread_mutexattr_destroy(&mattrib));
-
-    ERROR_CHECK(pthread_condattr_init(&cattrib));
-    ERROR_CHECK(pthread_condattr_setclock(&cattrib, CLOCK_MONOTONIC));
-    ERROR_CHECK(pthread_cond_init(&gRetrier->condItemAdded, &cattrib));
-    ERROR_CHECK(pthread_condattr_destroy(&cattrib));
-
-    ERROR_CHECK(pthread_create(&gRetrier->threadId, NULL, AsyncSubscribeRetrier_threadFunc, NULL));
-
-    RBUSLOG_DEBUG("%s exit", __FUNCTION__);
-}
-
-static void rbusAsyncSubscribeRetrier_Destroy()
+void rbusAsyncSubscribe_AddSubscription(rbusEventSubscription_t* subscription, rbusMessage payload, uint32_t timeout)
 {
-    RBUSLOG_DEBUG("%s enter", __FUNCTION__);
-
-    LOCK();
-    gRetrier->isRunning = false;
-    UNLOCK();
-
-    //wake up worker thread so it can exit and join
-    ERROR_CHECK(pthread_cond_signal(&gRetrier->condItemAdded));
-    ERROR_CHECK(pthread_join(gRetrier->threadId, NULL));
-
-    ERROR_CHECK(pthread_mutex_destroy(&gRetrier->mutexQueue));
-    ERROR_CHECK(pthread_cond_destroy(&gRetrier->condItemAdded));
-    rtList_Destroy(gRetrier->items, rbusAsyncSubscribeRetrier_FreeSubscription);
-
-    free(gRetrier);
-    gRetrier = NULL;
-
-    RBUSLOG_DEBUG("%s exit", __FUNCTION__);
-}
-
-void rbusAsyncSubscribe_AddSubscription(rbusEventSubscription_t* subscription, rbusMessage payload)
-{
-    int rc;
     char tbuff[50];
     VERIFY_NULL(subscription);
 
-    if(!gRetrier)
-    {
-        rbusAsyncSubscribeRetrier_Create();
-    }
-
-    AsyncSubscription_t* item = rt_malloc(sizeof(struct AsyncSubscription_t));
+    AsyncSubscription_t* item = rt_calloc(1, sizeof(struct AsyncSubscription_t));
+    AsyncSubscription_t** pp;
 
     rbusMessage_Retain(payload);
 
+    item->state = ASYNC_SUB_WAITING;
     item->subscription = subscription;
     item->payload = payload;
-    item->nextWaitTime = 0;
+    item->timeout = timeout;
 
     rtTime_Now(&item->startTime);
     item->nextRetryTime = item->startTime; /*set to now also so we do our first sub immediately*/
@@ -386,79 +321,116 @@ void rbusAsyncSubscribe_AddSubscription(rbusEventSubscription_t* subscription, r
     RBUSLOG_INFO("%s %s", subscription->eventName, rtTime_ToString(&item->startTime, tbuff));
 
     LOCK();
-    rtList_PushBack(gRetrier->items, item, NULL);
+    if(!gInitialized)
+    {
+        pthread_condattr_t cattrib;
+        ERROR_CHECK(pthread_condattr_init(&cattrib));
+        ERROR_CHECK(pthread_condattr_setclock(&cattrib, CLOCK_MONOTONIC));
+        ERROR_CHECK(pthread_cond_init(&gCond, &cattrib));
+        ERROR_CHECK(pthread_cond_init(&gCondDone, &cattrib));
+        ERROR_CHECK(pthread_condattr_destroy(&cattrib));
+        gInitialized = true;
+    }
+    for(pp = &gItems; *pp; pp = &(*pp)->next);
+    *pp = item;
+    if(!gRunning)
+    {
+        pthread_attr_t attrib;
+        ERROR_CHECK(pthread_attr_init(&attrib));
+        ERROR_CHECK(pthread_attr_setdetachstate(&attrib, PTHREAD_CREATE_DETACHED));
+        int err = pthread_create(&gThread, &attrib, AsyncSubscribeRetrier_threadFunc, NULL);
+        if(err != 0)
+        {
+            RBUSLOG_ERROR("Error %d:%s running command pthread_create", err, strerror(err));
+        }
+        gRunning = (err == 0);
+        ERROR_CHECK(pthread_attr_destroy(&attrib));
+    }
+    else
+    {
+        //wake up worker thread so it can process new item
+        ERROR_CHECK(pthread_cond_signal(&gCond));
+    }
     UNLOCK();
+}
 
-    //wake up worker thread so it can process new item
-    rc = pthread_cond_signal(&gRetrier->condItemAdded);
-    (void)rc;
+/*called and returns with gMutex locked*/
+static void removeItem(AsyncSubscription_t* item)
+{
+    unlinkItem(item);
+    item->removed = true;
+    if(item->state == ASYNC_SUB_DONE && item->result == RBUS_ERROR_SUCCESS)
+    {
+        UNLOCK();
+        unsubscribe(item); /*the retry thread still needs the eventSubs mutex before it frees the item*/
+        LOCK();
+    }
+    else if(item->state == ASYNC_SUB_WAITING)
+    {
+        freeItem(item);
+        ERROR_CHECK(pthread_cond_signal(&gCond));
+    }
 }
 
+/*must be called with the handle's eventSubs mutex locked*/
 bool rbusAsyncSubscribe_RemoveSubscription(rbusEventSubscription_t* subscription)
 {
-    rtError err = RT_OK;
-    bool sub_removed = false;
-    if(!gRetrier || subscription == NULL)
+    AsyncSubscription_t* item;
+    if(subscription == NULL)
         return false;
     LOCK();
-    err = rtList_RemoveItemByCompare(gRetrier->items, subscription,
-        rbusAsyncSubscribeRetrier_CompareSubscription, rbusAsyncSubscribeRetrier_FreeSubscription);
-    if(err == RT_OK)
-        sub_removed = true;
+    item = findItem(subscription);
+    if(item)
+        removeItem(item);
     UNLOCK();
-    return sub_removed;
+    return item != NULL;
 }
 
-bool rbusAsyncSubscribe_GetSubscription(rbusHandle_t handle, char const* eventName, rbusFilter_t filter)
+/*must be called with the handle's eventSubs mutex locked*/
+bool rbusAsyncSubscribe_GetSubscription(rbusEventSubscription_t* subscription)
 {
-    rbusEventSubscription_t sub = {0};
-    bool sub_exist = false;
-
-    if(!gRetrier)
-        return sub_exist;
-    sub.handle = handle;
-    sub.eventName = eventName;
-    sub.filter = filter;
+    bool sub_exist;
+
     LOCK();
-    if(rtList_Find(gRetrier->items, &sub, rbusAsyncSubscribeRetrier_CompareSubscription) != NULL)
+    sub_exist = findItem(subscription) != NULL;
+    /*the retry thread might be about to undo it: subscribing again has to come after that*/
+    while(!sub_exist && gCurrent && gCurrent->removed && gCurrent->state == ASYNC_SUB_SENDING && isSame(gCurrent, subscription))
     {
-        sub_exist = true;
-    }
-    else
-    {
-        sub_exist = false;
+        ERROR_CHECK(pthread_cond_wait(&gCondDone, &gMutex));
+        sub_exist = findItem(subscription) != NULL;
     }
     UNLOCK();
     return sub_exist;
 }
 
+/*must be called without the handle's eventSubs mutex, and returns when the retry thread doesn't use the handle any more*/
 void rbusAsyncSubscribe_CloseHandle(rbusHandle_t handle)
 {
-    size_t size1, size;
-
-    if(!gRetrier)
-        return;
-
-    RBUSLOG_DEBUG("%s", __FUNCTION__);
+    AsyncSubscription_t* item;
+    int count = 0;
 
+    HANDLE_EVENTSUBS_MUTEX_LOCK(handle);
     LOCK();
-
-    rtList_GetSize(gRetrier->items, &size1);
-
-    //remove all items with this handle
-    rtList_RemoveItemByCompare(gRetrier->items, handle, 
-                             rbusAsyncSubscribeRetrier_CompareHandle, rbusAsyncSubscribeRetrier_FreeSubscription);
-
-    //if list is empty, we can destruct
-    rtList_GetSize(gRetrier->items, &size);
-
+    for(item = gItems; item;)
+    {
+        if(item->subscription->handle == handle)
+        {
+            removeItem(item);
+            item = gItems;
+            count++;
+        }
+        else
+        {
+            item = item->next;
+        }
+    }
     UNLOCK();
+    HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
 
-    RBUSLOG_INFO("removed %d pending async subscriptions.  %d subs left in list.", (int)(size1-size), (int)size);
+    LOCK();
+    while(gCurrent && gCurrentHandle == handle && !pthread_equal(gThread, pthread_self()))
+        ERROR_CHECK(pthread_cond_wait(&gCondDone, &gMutex));
+    UNLOCK();
 
-    if(size == 0)
-    {
-        RBUSLOG_INFO("all handles removed");
-        rbusAsyncSubscribeRetrier_Destroy();
-    }
+    RBUSLOG_INFO("removed %d pending async subscriptions.", count);
 }
diff --git a/src/rbus/rbus_asyncsubscribe.h b/src/rbus/rbus_asyncsubscribe.h
index 4df56a2..c29d2e5 100644
--- a/src/rbus/rbus_asyncsubscribe.h
+++ b/src/rbus/rbus_asyncsubscribe.h
@@ -25,9 +25,9 @@
 #ifdef __cplusplus
 extern "C" {
 #endif
-void rbusAsyncSubscribe_AddSubscription(rbusEventSubscription_t* subscription, rbusMessage payload);
+void rbusAsyncSubscribe_AddSubscription(rbusEventSubscription_t* subscription, rbusMessage payload, uint32_t timeout);
 bool rbusAsyncSubscribe_RemoveSubscription(rbusEventSubscription_t* subscription);
-bool rbusAsyncSubscribe_GetSubscription(rbusHandle_t handle, char const* eventName, rbusFilter_t filter);
+bool rbusAsyncSubscribe_GetSubscription(rbusEventSubscription_t* subscription);
 void rbusAsyncSubscribe_CloseHandle(rbusHandle_t handle);
 
 #ifdef __cplusplus
-- 
2.43.0


From 93b5fea1a98900f4bebd97bcabcb0d5ff0d724e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:07 +0000
Subject: [PATCH 30/46] fix: close waits for asynchronous method calls

A pending rbusMethod_InvokeAsync used the handle, and the connection if it
was the last handle, after rbus_close had freed them, and called back after
rbus_close had returned.
---
 src/rbus/rbus.c              | 108 +++++++++++++++++++++++++++++------
 src/rtmessage/rtConnection.c |  78 ++++++++++++++++++-------
 src/rtmessage/rtConnection.h |  16 ++++++
 3 files changed, 164 insertions(+), 38 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 73cc99c..29ec383 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -3202,6 +3202,8 @@ rbusError_t rbus_closeDirect(rbusHandle_t handle)
     return ret;
 }
 
+static void rbusMethod_InvokeAsyncCloseHandle(rbusHandle_t handle);
+
 rbusError_t rbus_close(rbusHandle_t handle)
 {
     VERIFY_HANDLE(handle);
@@ -3226,6 +3228,7 @@ rbusError_t rbus_close(rbusHandle_t handle)
         ret = RBUS_ERROR_INVALID_HANDLE;
     }
 
+    rbusMethod_InvokeAsyncCloseHandle(handle);
     rbusAsyncSubscribe_CloseHandle(handle); /*before its subscriptions are removed*/
 
     HANDLE_EVENTSUBS_MUTEX_LOCK(handle);
@@ -3260,6 +3263,7 @@ rbusError_t rbus_close(rbusHandle_t handle)
     UnlockMutex();
     rbusHandleList_Remove(handleInfo);
     rtConnection_WaitCallback(handleInfo->m_connection); /*it may have found the handle before*/
+    rbusMethod_InvokeAsyncCloseHandle(handle); /*a handler may have called a method meanwhile*/
 
     rbusValueChange_CloseHandle(handle);//called before freeElementNode below
 
@@ -6199,22 +6203,31 @@ rbusError_t  rbusEvent_Publish(
     return errOut == RBUSCORE_SUCCESS ? RBUS_ERROR_SUCCESS: RBUS_ERROR_BUS_ERROR;
 }
 
-rbusError_t rbusMethod_InvokeInternal(
-    rbusHandle_t handle, 
+static rtConnection rbusMethod_GetConnection(rbusHandle_t handle, char const* methodName)
+{
+    struct _rbusHandle* handleInfo = (struct _rbusHandle*) handle;
+
+    /* Find direct connection status */
+    rtConnection myConn = rbuscore_FindClientPrivateConnection(methodName);
+
+    if (NULL == myConn)
+        myConn = handleInfo->m_connection;
+    return myConn;
+}
+
+static rbusError_t rbusMethod_InvokeInternal(
+    rtConnection myConn, 
     char const* methodName, 
     rbusObject_t inParams, 
     rbusObject_t* outParams,
     int timeout)
 {
-    (void)handle;
     rbusCoreError_t err;
     int returnCode = RBUS_ERROR_INVALID_INPUT;
     rbusMessage request, response;
     rbusLegacyReturn_t legacyRetCode = RBUS_LEGACY_ERR_FAILURE;
     rbusValue_t value1 = NULL, value2 = NULL;
-    struct _rbusHandle* handleInfo = (struct _rbusHandle*) handle;
 
-    VERIFY_NULL(handle);
     VERIFY_NULL(methodName);
     VERIFY_NULL(outParams);
 
@@ -6234,12 +6247,6 @@ rbusError_t rbusMethod_InvokeInternal(
         rbusMessage_SetInt32(request, 0);
     }
 
-    /* Find direct connection status */
-    rtConnection myConn = rbuscore_FindClientPrivateConnection(methodName);
-
-    if (NULL == myConn)
-        myConn = handleInfo->m_connection;
-
     if((err = rbus_invokeRemoteMethod2(myConn,
         methodName,
         METHOD_RPC, 
@@ -6293,18 +6300,34 @@ rbusError_t rbusMethod_Invoke(
     if (handleInfo->m_handleType != RBUS_HWDL_TYPE_REGULAR)
         return RBUS_ERROR_INVALID_HANDLE;
 
-    return rbusMethod_InvokeInternal(handle, methodName, inParams, outParams, rbusHandle_FetchSetTimeout(handle));
+    return rbusMethod_InvokeInternal(rbusMethod_GetConnection(handle, methodName), methodName, inParams, outParams, rbusHandle_FetchSetTimeout(handle));
 }
 
 typedef struct _rbusMethodInvokeAsyncData_t
 {
-    rbusHandle_t handle;
+    struct _rbusMethodInvokeAsyncData_t* next;
+    rbusHandle_t handle; /*NULL after rbus_close; guarded by gAsyncInvokeMutex*/
+    rtConnection connection;
     char* methodName; 
     rbusObject_t inParams; 
     rbusMethodAsyncRespHandler_t callback;
     int timeout;
+    bool inCallback;
+    pthread_t thread;
 } rbusMethodInvokeAsyncData_t;
 
+static pthread_mutex_t gAsyncInvokeMutex = PTHREAD_MUTEX_INITIALIZER;
+static pthread_cond_t gAsyncInvokeCond = PTHREAD_COND_INITIALIZER; /*a callback has returned*/
+static rbusMethodInvokeAsyncData_t* gAsyncInvokes = NULL;
+
+static void rbusMethod_InvokeAsyncRemove(rbusMethodInvokeAsyncData_t* data)
+{
+    rbusMethodInvokeAsyncData_t** pp = &gAsyncInvokes;
+    while(*pp != data)
+        pp = &(*pp)->next;
+    *pp = data->next;
+}
+
 static void* rbusMethod_InvokeAsyncThreadFunc(void *p)
 {
     rbusError_t err;
@@ -6313,13 +6336,26 @@ static void* rbusMethod_InvokeAsyncThreadFunc(void *p)
     if(!data)
         return NULL;
     err = rbusMethod_InvokeInternal(
-        data->handle,
+        data->connection,
         data->methodName, 
         data->inParams, 
         &outParams,
         data->timeout);
+    rtConnection_EndUse(data->connection);
 
-    data->callback(data->handle, data->methodName, err, outParams);
+    ERROR_CHECK(pthread_mutex_lock(&gAsyncInvokeMutex));
+    if(data->handle)
+    {
+        rbusHandle_t handle = data->handle;
+        data->inCallback = true;
+        data->thread = pthread_self();
+        ERROR_CHECK(pthread_mutex_unlock(&gAsyncInvokeMutex));
+        data->callback(handle, data->methodName, err, outParams);
+        ERROR_CHECK(pthread_mutex_lock(&gAsyncInvokeMutex));
+    }
+    rbusMethod_InvokeAsyncRemove(data);
+    ERROR_CHECK(pthread_cond_broadcast(&gAsyncInvokeCond));
+    ERROR_CHECK(pthread_mutex_unlock(&gAsyncInvokeMutex));
 
     rbusObject_Release(data->inParams);
     if(outParams)
@@ -6330,6 +6366,30 @@ static void* rbusMethod_InvokeAsyncThreadFunc(void *p)
     return NULL;
 }
 
+/*returns when no callback of this handle is running or will be called*/
+static void rbusMethod_InvokeAsyncCloseHandle(rbusHandle_t handle)
+{
+    rbusMethodInvokeAsyncData_t* data;
+    bool running;
+    ERROR_CHECK(pthread_mutex_lock(&gAsyncInvokeMutex));
+    do
+    {
+        running = false;
+        for(data = gAsyncInvokes; data; data = data->next)
+        {
+            if(data->handle != handle)
+                continue;
+            if(!data->inCallback)
+                data->handle = NULL;
+            else if(!pthread_equal(data->thread, pthread_self()))
+                running = true;
+        }
+        if(running)
+            ERROR_CHECK(pthread_cond_wait(&gAsyncInvokeCond, &gAsyncInvokeMutex));
+    } while(running);
+    ERROR_CHECK(pthread_mutex_unlock(&gAsyncInvokeMutex));
+}
+
 rbusError_t rbusMethod_InvokeAsync(
     rbusHandle_t handle, 
     char const* methodName, 
@@ -6344,23 +6404,38 @@ rbusError_t rbusMethod_InvokeAsync(
     struct _rbusHandle* handleInfo = (struct _rbusHandle*)handle;
     pthread_t pid;
     rbusMethodInvokeAsyncData_t* data;
+    rtConnection connection;
     int err = 0;
 
     if (handleInfo->m_handleType != RBUS_HWDL_TYPE_REGULAR)
         return RBUS_ERROR_INVALID_HANDLE;
 
+    connection = rbusMethod_GetConnection(handle, methodName);
+    if(rtConnection_BeginUse(connection) != RT_OK)
+        return RBUS_ERROR_BUS_ERROR;
+
     rbusObject_Retain(inParams);
 
-    data = rt_malloc(sizeof(rbusMethodInvokeAsyncData_t));
+    data = rt_calloc(1, sizeof(rbusMethodInvokeAsyncData_t));
     data->handle = handle;
+    data->connection = connection;
     data->methodName = strdup(methodName);
     data->inParams = inParams;
     data->callback = callback;
     data->timeout = timeout > 0 ? (timeout * 1000) : (int)rbusHandle_FetchSetTimeout(handle); /* convert seconds to milliseconds */
 
+    ERROR_CHECK(pthread_mutex_lock(&gAsyncInvokeMutex));
+    data->next = gAsyncInvokes;
+    gAsyncInvokes = data;
     if((err = pthread_create(&pid, NULL, rbusMethod_InvokeAsyncThreadFunc, data)) != 0)
     {
         RBUSLOG_ERROR("pthread_create failed: err=%d", err);
+        rbusMethod_InvokeAsyncRemove(data);
+        ERROR_CHECK(pthread_mutex_unlock(&gAsyncInvokeMutex));
+        rtConnection_EndUse(connection);
+        rbusObject_Release(data->inParams);
+        free(data->methodName);
+        free(data);
         return RBUS_ERROR_BUS_ERROR;
     }
 
@@ -6368,6 +6443,7 @@ rbusError_t rbusMethod_InvokeAsync(
     {
         RBUSLOG_ERROR("pthread_detach failed: err=%d", err);
     }
+    ERROR_CHECK(pthread_mutex_unlock(&gAsyncInvokeMutex));
 
     return RBUS_ERROR_SUCCESS;
 }
diff --git a/src/rtmessage/rtConnection.c b/src/rtmessage/rtConnection.c
index f4e727b..2b2bb31 100644
--- a/src/rtmessage/rtConnection.c
+++ b/src/rtmessage/rtConnection.c
@@ -113,6 +113,9 @@ struct _rtConnection
   pthread_mutex_t         mutex;
   pthread_mutex_t         send_mutex; /*serializes sends; never taken with mutex held so that a blocked send cannot stop the reader*/
   rtList                  pending_requests_list;
+  int                     use_count; /*requests being sent, and users registered with rtConnection_BeginUse; guarded by mutex*/
+  int                     closing; /*no more requests; guarded by mutex*/
+  pthread_cond_t          use_cond;
   rtList                  callback_message_list;
   rtMessageCallback       default_callback;
   void*                   default_closure;
@@ -701,6 +704,7 @@ rtConnection_CreateInternal(rtConnection* con, char const* application_name, cha
   }
   pthread_cond_init(&c->callback_message_cond, NULL);
   pthread_cond_init(&c->callback_done_cond, NULL);
+  pthread_cond_init(&c->use_cond, NULL);
   pthread_condattr_t cond_attribute;
   pthread_condattr_init(&cond_attribute);
   pthread_condattr_setclock(&cond_attribute, CLOCK_MONOTONIC); /*as rtTime_Now*/
@@ -869,14 +873,34 @@ rtConnection_Destroy(rtConnection con)
   if (con)
   {
     unsigned int i;
+    rtListItem listItem;
     SetRunThreadsSync(con, 0);
     
     pthread_mutex_lock(&con->reconnect_mutex);
     if (con->fd != -1)
       shutdown(con->fd, SHUT_RDWR);
     pthread_mutex_unlock(&con->reconnect_mutex);
+
+    /*Unblock all threads waiting for RPC responses.*/
+    pthread_mutex_lock(&con->mutex);
+    con->closing = 1;
+    for(rtList_GetFront(con->pending_requests_list, &listItem); 
+        listItem != NULL; 
+        rtListItem_GetNext(listItem, &listItem))
+    {
+      pending_request *entry;
+      rtListItem_GetData(listItem, (void**)&entry);
+      rtSemaphore_Post(entry->sem);
+    }
+    pthread_mutex_unlock(&con->mutex);
     
     rtConnection_StopThreads(con);
+
+    /*wait until they stop using con*/
+    pthread_mutex_lock(&con->mutex);
+    while (con->use_count > 0)
+      pthread_cond_wait(&con->use_cond, &con->mutex);
+    pthread_mutex_unlock(&con->mutex);
     
     if (con->fd != -1)
       close(con->fd);
@@ -899,37 +923,16 @@ rtConnection_Destroy(rtConnection con)
       if (con->listeners[i].in_use)
         free(con->listeners[i].expression);
     }
-    /*Unblock all threads waiting for RPC responses.*/
-    pthread_mutex_lock(&con->mutex);
-    int found_pending_requests = 0;
-
-    rtListItem listItem;
-    for(rtList_GetFront(con->pending_requests_list, &listItem); 
-        listItem != NULL; 
-        rtListItem_GetNext(listItem, &listItem))
-    {
-      pending_request *entry;
-      rtListItem_GetData(listItem, (void**)&entry);
-
-      found_pending_requests = 1;
-      rtSemaphore_Post(entry->sem);
-    }
     rtList_Destroy(con->pending_requests_list,NULL);
     rtList_Destroy(con->callback_message_list, rtMessageInfo_ListItemFree);
     rtList_Destroy(con->alias_list, rtList_Cleanup_Free);
-    pthread_mutex_unlock(&con->mutex);
-    if(0 != found_pending_requests)
-    {
-      rtLog_Error("Warning! Found pending requests while destroying connection.");
-      sleep(1); /* ugly hack to allow all sendRequest() calls to return and stop using con->* data members. Hopefully, this will never be 
-      executed in practice. Revisit if necessary. */
-    }
 
     pthread_mutex_destroy(&con->mutex);
     pthread_mutex_destroy(&con->send_mutex);
     pthread_mutex_destroy(&con->callback_message_mutex);
     pthread_cond_destroy(&con->callback_message_cond);
     pthread_cond_destroy(&con->callback_done_cond);
+    pthread_cond_destroy(&con->use_cond);
     pthread_cond_destroy(&con->reconnect_cond);
     pthread_mutex_destroy(&con->reconnect_mutex);
 
@@ -938,6 +941,28 @@ rtConnection_Destroy(rtConnection con)
   return 0;
 }
 
+rtError
+rtConnection_BeginUse(rtConnection con)
+{
+  rtError err = RT_OK;
+  pthread_mutex_lock(&con->mutex);
+  if (con->closing)
+    err = RT_NO_CONNECTION;
+  else
+    con->use_count++;
+  pthread_mutex_unlock(&con->mutex);
+  return err;
+}
+
+void
+rtConnection_EndUse(rtConnection con)
+{
+  pthread_mutex_lock(&con->mutex);
+  if (--con->use_count == 0)
+    pthread_cond_broadcast(&con->use_cond);
+  pthread_mutex_unlock(&con->mutex);
+}
+
 rtError
 rtConnection_SendMessage(rtConnection con, rtMessage msg, char const* topic)
 {
@@ -1154,6 +1179,8 @@ rtConnection_SendRequestInternal(rtConnection con, uint8_t const* pReq, uint32_t
 {
   if (!con)
     return rtErrorFromErrno(EINVAL);
+  if (rtConnection_BeginUse(con) != RT_OK)
+    return RT_NO_CONNECTION;
   while(1)
   {
     rtError ret = RT_OK;
@@ -1167,6 +1194,12 @@ rtConnection_SendRequestInternal(rtConnection con, uint8_t const* pReq, uint32_t
     pid_t tid = syscall(__NR_gettid);
 
     pthread_mutex_lock(&con->mutex);
+    if(con->closing)
+    {
+      pthread_mutex_unlock(&con->mutex);
+      rtConnection_EndUse(con);
+      return RT_NO_CONNECTION;
+    }
 #ifdef C11_ATOMICS_SUPPORTED
     sequence_number = atomic_fetch_add_explicit(&con->sequence_number, 1, memory_order_relaxed);
 #else
@@ -1290,6 +1323,7 @@ rtConnection_SendRequestInternal(rtConnection con, uint8_t const* pReq, uint32_t
       rtLog_Info("rtConnection_SendRequest TIMEOUT");
     }
 
+    rtConnection_EndUse(con);
     return ret;
   }
 }
diff --git a/src/rtmessage/rtConnection.h b/src/rtmessage/rtConnection.h
index 34b54a7..56c8e63 100644
--- a/src/rtmessage/rtConnection.h
+++ b/src/rtmessage/rtConnection.h
@@ -229,6 +229,22 @@ rtConnection_RemoveListenerWithId(rtConnection con, char const* expression, uint
 void
 rtConnection_WaitCallback(rtConnection con);
 
+/**
+ * Keep a connection from being freed while a thread that its owner doesn't wait for uses it. rtConnection_Destroy makes the
+ * requests on the connection fail and returns after rtConnection_EndUse has been called for each successful call of this.
+ * @param con
+ * @return error if the connection is being destroyed
+ */
+rtError
+rtConnection_BeginUse(rtConnection con);
+
+/**
+ * @see rtConnection_BeginUse
+ * @param con
+ */
+void
+rtConnection_EndUse(rtConnection con);
+
 /**
  * Add an alias to an existing listener
  * @param con
-- 
2.43.0


From 0c59bed434ff135bac89a8479ec3b5efd3eca878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:17 +0000
Subject: [PATCH 31/46] fix: a late response to a closed connection's request
 answered another request

A process that closed its connection and opened another one got the same
inbox name and started counting its requests from 1 again.
---
 src/rtmessage/rtConnection.c | 42 +++++++++++++++---------------------
 1 file changed, 17 insertions(+), 25 deletions(-)

diff --git a/src/rtmessage/rtConnection.c b/src/rtmessage/rtConnection.c
index 2b2bb31..6e1057f 100644
--- a/src/rtmessage/rtConnection.c
+++ b/src/rtmessage/rtConnection.c
@@ -104,7 +104,6 @@ struct _rtConnection
   int                     send_buffer_in_use;
   uint8_t*                recv_buffer;
   int                     recv_buffer_capacity;
-  atomic_uint_least32_t   sequence_number;
   char*                   application_name;
   int                     max_retries;
   rtConnectionState       state;
@@ -181,6 +180,19 @@ static int rtConnection_StartThreads(rtConnection con);
 static int rtConnection_StopThreads(rtConnection con);
 static rtError rtConnection_Read(rtConnection con, int32_t timeout);
 
+/*One for all connections of the process: they have the same inbox name one after the other, and a late response to a request of
+  one that has been destroyed must not match a request of its successor*/
+static atomic_uint_least32_t g_sequence_number = 1;
+
+static uint32_t rtConnection_NextSequenceNumber()
+{
+#ifdef C11_ATOMICS_SUPPORTED
+  return atomic_fetch_add_explicit(&g_sequence_number, 1, memory_order_relaxed);
+#else
+  return __sync_fetch_and_add(&g_sequence_number, 1);
+#endif
+}
+
 static inline bool rtConnection_IsSecure(rtConnection con)
 {
 #ifdef WITH_SPAKE2
@@ -402,11 +414,7 @@ rtConnection_SendAdd(rtConnection con, char const* expression, uint32_t route_id
   rtMessage_SetInt32(m, "route_id", route_id);
   rtMessage_ToByteArrayWithSize(m, &p, DEFAULT_SEND_BUFFER_SIZE, &n);
   rtMessage_Release(m);
-#ifdef C11_ATOMICS_SUPPORTED
-  sequence_number = atomic_fetch_add_explicit(&con->sequence_number, 1, memory_order_relaxed);
-#else
-  sequence_number = __sync_fetch_and_add(&con->sequence_number, 1);
-#endif
+  sequence_number = rtConnection_NextSequenceNumber();
   err = rtConnection_SendInternal(con, p, n, "_RTROUTED.INBOX.SUBSCRIBE", NULL, 0, sequence_number, 0, 0, 0);
   rtMessage_FreeByteArray(p);
   return err;
@@ -725,10 +733,6 @@ rtConnection_CreateInternal(rtConnection* con, char const* application_name, cha
   if(!c->recv_buffer)
     return rtErrorFromErrno(ENOMEM);
   c->recv_buffer_capacity = RTMSG_SEND_BUFFER_SIZE;
-  c->sequence_number = 1;
-#ifdef C11_ATOMICS_SUPPORTED
-  atomic_init(&(c->sequence_number), 1);
-#endif
   c->application_name = strdup(application_name);
   c->max_retries = max_retries;
   /*if user config tries to set 0, we just override with 1, as 0 makes no sense currently*/
@@ -988,11 +992,7 @@ rtConnection_SendMessageDirect(rtConnection con, rtMessage msg, char const* topi
     rtMessage_ToByteArrayWithSize(msg, &p, DEFAULT_SEND_BUFFER_SIZE, &n);  /*FIXME unification is this needed ? rtMessage_FreeByteArray(p);*/
 
     pthread_mutex_lock(&con->send_mutex);
-#ifdef C11_ATOMICS_SUPPORTED
-    sequence_number = atomic_fetch_add_explicit(&con->sequence_number, 1, memory_order_relaxed);
-#else
-    sequence_number = __sync_fetch_and_add(&con->sequence_number, 1);
-#endif
+    sequence_number = rtConnection_NextSequenceNumber();
     connection_id = con->connection_id;
     err = rtConnection_SendInternal(con, p, n, topic, listener, 0, sequence_number, 0, 0, 0);
     pthread_mutex_unlock(&con->send_mutex);
@@ -1090,11 +1090,7 @@ rtConnection_SendBinaryDirect(rtConnection con, uint8_t const* p, uint32_t n, ch
     uint32_t sequence_number;
     uint32_t connection_id;
 
-#ifdef C11_ATOMICS_SUPPORTED
-    sequence_number = atomic_fetch_add_explicit(&con->sequence_number, 1, memory_order_relaxed);
-#else
-    sequence_number = __sync_fetch_and_add(&con->sequence_number, 1);
-#endif
+    sequence_number = rtConnection_NextSequenceNumber();
 
     pthread_mutex_lock(&con->send_mutex);
     connection_id = con->connection_id;
@@ -1200,11 +1196,7 @@ rtConnection_SendRequestInternal(rtConnection con, uint8_t const* pReq, uint32_t
       rtConnection_EndUse(con);
       return RT_NO_CONNECTION;
     }
-#ifdef C11_ATOMICS_SUPPORTED
-    sequence_number = atomic_fetch_add_explicit(&con->sequence_number, 1, memory_order_relaxed);
-#else
-    sequence_number = __sync_fetch_and_add(&con->sequence_number, 1);
-#endif
+    sequence_number = rtConnection_NextSequenceNumber();
     /*Populate the pending request and enqueue it.*/
     pending_request queue_entry;
     queue_entry.sequence_number = sequence_number;
-- 
2.43.0


From 3e121061dce5663fc3e46f07806369d11af6f854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:26 +0000
Subject: [PATCH 32/46] fix: double free when opening an open component again
 fails

---
 src/rbus/rbus.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 29ec383..f2ebd14 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -3016,6 +3016,7 @@ rbusError_t rbus_open(rbusHandle_t* handle, char const* componentName)
         UnlockMutex();
         RBUSLOG_WARN("(%s): closing previously opened component with the same name", componentName);
         rbus_close(tmpHandle);
+        tmpHandle = NULL;
         LockMutex();
     }
 
-- 
2.43.0


From 6964fd1be5ba64020167dfaa7e2647f5736f6fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:35 +0000
Subject: [PATCH 33/46] fix: asynchronous method response during close used the
 freed connection

---
 src/core/rbuscore.c | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/core/rbuscore.c b/src/core/rbuscore.c
index c5e246e..6255b33 100644
--- a/src/core/rbuscore.c
+++ b/src/core/rbuscore.c
@@ -321,6 +321,9 @@ void client_subscription_destroy(void* p)
 #define MAX_DAEMON_ADDRESS_LEN 256
 static char g_daemon_address[MAX_DAEMON_ADDRESS_LEN] = "unix:///tmp/rtrouted";
 static rtConnection g_connection = NULL;
+/*the connection for responses: a provider may send one from any thread at any time, also while the connection is being closed*/
+static rtConnection g_response_connection = NULL;
+static pthread_mutex_t g_response_mutex = PTHREAD_MUTEX_INITIALIZER;
 static rtVector g_server_objects; /*server_object_t list*/
 static pthread_mutex_t g_mutex;
 static pthread_mutex_t g_directCliMutex;
@@ -655,6 +658,10 @@ rbusCoreError_t rbus_openBrokerConnection2(const char * component_name, const ch
         return RBUSCORE_ERROR_GENERAL;
     }
 
+    pthread_mutex_lock(&g_response_mutex);
+    g_response_connection = g_connection;
+    pthread_mutex_unlock(&g_response_mutex);
+
     RBUSCORELOG_DEBUG("Successfully created connection for %s", component_name );
     unlock();
     return ret;
@@ -681,6 +688,10 @@ rbusCoreError_t rbus_closeBrokerConnection()
 
     cancel_event_subscriptions();
 
+    pthread_mutex_lock(&g_response_mutex);
+    g_response_connection = NULL;
+    pthread_mutex_unlock(&g_response_mutex);
+
     /*joins the callback thread, which can need the lock*/
     err = rtConnection_Destroy(g_connection);
     if(RT_OK != err)
@@ -2337,6 +2348,7 @@ rbuscore_bus_status_t rbuscore_checkBusStatus(void)
 rbusCoreError_t rbus_sendResponse(const rtMessageHeader* hdr, rbusMessage response)
 {
     rtError err = RT_OK;
+    rtConnection con;
     uint8_t* data;
     uint32_t dataLength;
 
@@ -2352,7 +2364,16 @@ rbusCoreError_t rbus_sendResponse(const rtMessageHeader* hdr, rbusMessage respon
 
         _rbusMessage_SetMetaInfo(response, METHOD_RESPONSE, NULL, NULL);
         rbusMessage_ToBytes(response, &data, &dataLength);
-        if((err= rtConnection_SendBinaryResponse(g_connection, hdr, data, dataLength, TIMEOUT_VALUE_FIRE_AND_FORGET)) != RT_OK)
+        pthread_mutex_lock(&g_response_mutex);
+        con = g_response_connection;
+        err = con ? rtConnection_BeginUse(con) : RT_NO_CONNECTION;
+        pthread_mutex_unlock(&g_response_mutex);
+        if(err == RT_OK)
+        {
+            err = rtConnection_SendBinaryResponse(con, hdr, data, dataLength, TIMEOUT_VALUE_FIRE_AND_FORGET);
+            rtConnection_EndUse(con);
+        }
+        if(err != RT_OK)
         {
             RBUSCORELOG_ERROR("Failed to send async response. Error code: 0x%x", err);
         }
-- 
2.43.0


From 86d4d8b9f48b41a3ad65f6cbdcd052fe63e76166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:32 +0000
Subject: [PATCH 34/46] fix: subscriptions from the cache: lost in a crash
 while saved or subscribed again, subscribed twice

The cache file is written aside and renamed, it was empty or partial if the provider
died while saving it.  Subscribing again what was loaded is done without the lock the
list needs while the provider's handler runs, keeps the entry until it is replaced, and
no longer takes the row Device.T.10 for one of Device.T.1.  What is read from the file
is checked.
---
 src/rbus/rbus.c               |  18 ++-
 src/rbus/rbus_subscriptions.c | 294 ++++++++++++++++++----------------
 src/rbus/rbus_subscriptions.h |   7 +
 3 files changed, 179 insertions(+), 140 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index f2ebd14..585afac 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -1149,6 +1149,18 @@ int subscribeHandlerImpl(
     subscription = rbusSubscriptions_getSubscription(handleInfo->subscriptions, listener, eventName, componentId, filter, interval, duration, rawData);
     if (added)
     {
+        if(subscription && rbusSubscriptions_isLoaded(subscription))
+        {
+            /*loaded from the cache: it becomes the new one*/
+            rbusSubscriptions_takeOut(handleInfo->subscriptions, subscription);
+            subscription = NULL;
+        }
+        else if(!subscriptionId)
+        {
+            /*subscribing again what was loaded from the cache: somebody has unsubscribed or subscribed it since*/
+            HANDLE_SUBS_MUTEX_UNLOCK(handle);
+            return RBUS_ERROR_SUCCESS;
+        }
         if(!subscription)
         {
             subscription = rbusSubscriptions_addSubscription(handleInfo->subscriptions, listener, eventName, componentId, filter, interval, duration, autoPublish, el, rawData);
@@ -1157,7 +1169,7 @@ int subscribeHandlerImpl(
                 HANDLE_SUBS_MUTEX_UNLOCK(handle);
                 return RBUS_ERROR_INVALID_INPUT; // Adding fails because of invalid input
             }
-            else
+            else if(subscriptionId)
                 *subscriptionId = subscription->subscriptionId;
         }
         else
@@ -1294,9 +1306,7 @@ static void registerTableRow (rbusHandle_t handle, elementNode* tableInstElem, c
         /* Re-subscribe all the child elements of this row */
         if(handleInfo->subscriptions)
         {
-            HANDLE_SUBS_MUTEX_LOCK(handle);
             rbusSubscriptions_resubscribeRowElementCache(handle, handleInfo->subscriptions, rowElem);
-            HANDLE_SUBS_MUTEX_UNLOCK(handle);
         }
         rbusValue_Release(rowNameVal);
         rbusValue_Release(instNumVal);
@@ -3384,9 +3394,7 @@ rbusError_t rbus_regDataElements(
             }
             else
             {
-                HANDLE_SUBS_MUTEX_LOCK(handle);
                 rbusSubscriptions_resubscribeElementCache(handle, handleInfo->subscriptions, name, node);
-                HANDLE_SUBS_MUTEX_UNLOCK(handle);
                 RBUSLOG_DEBUG("%s inserted successfully!", name);
             }
         }
diff --git a/src/rbus/rbus_subscriptions.c b/src/rbus/rbus_subscriptions.c
index 4b90572..5457bfc 100644
--- a/src/rbus/rbus_subscriptions.c
+++ b/src/rbus/rbus_subscriptions.c
@@ -79,13 +79,16 @@ static void subscriptionFree(void* p)
     if(sub->interval)
         rbusInterval_RemoveSubscriptionRecord(NULL, NULL, sub); /*removed with a table row, or at its end*/
 
-    rtList_GetFront(sub->instances, &item);
-    while(item)
+    if(sub->instances)/*none yet if freed while being loaded from the cache*/
     {
-        elementNode* node;
-        rtListItem_GetData(item, (void**)&node);
-        removeElementSubscription(node, sub);
-        rtListItem_GetNext(item, &item);
+        rtList_GetFront(sub->instances, &item);
+        while(item)
+        {
+            elementNode* node;
+            rtListItem_GetData(item, (void**)&node);
+            removeElementSubscription(node, sub);
+            rtListItem_GetNext(item, &item);
+        }
     }
     if(sub->tokens)
         TokenChain_destroy(sub->tokens);
@@ -160,6 +163,7 @@ rbusSubscription_t* rbusSubscriptions_addSubscription(rbusSubscriptions_t subscr
     sub->tokens = tokens;
     sub->rawData = rawData;
     sub->subscriptionId = subscriptionId;
+    sub->resubscribing = false;
     rtList_Create(&sub->instances);
     rtList_PushBack(subscriptions->subList, sub, NULL);
 
@@ -204,8 +208,8 @@ rbusSubscription_t* rbusSubscriptions_getSubscription(rbusSubscriptions_t subscr
     return NULL;
 }
 
-/*remove an existing subscription*/
-void rbusSubscriptions_removeSubscription(rbusSubscriptions_t subscriptions, rbusSubscription_t* sub)
+/*remove an existing subscription, which stays in the cache file until that is saved the next time*/
+void rbusSubscriptions_takeOut(rbusSubscriptions_t subscriptions, rbusSubscription_t* sub)
 {
     rtListItem item;
     rbusSubscription_t* sub2;
@@ -227,6 +231,14 @@ void rbusSubscriptions_removeSubscription(rbusSubscriptions_t subscriptions, rbu
         }
         rtListItem_GetNext(item, &item);
     }    
+}
+
+/*remove an existing subscription*/
+void rbusSubscriptions_removeSubscription(rbusSubscriptions_t subscriptions, rbusSubscription_t* sub)
+{
+    VERIFY_NULL(subscriptions);
+    VERIFY_NULL(sub);
+    rbusSubscriptions_takeOut(subscriptions, sub);
     rbusSubscriptions_saveCache(subscriptions);
 }
 
@@ -427,12 +439,44 @@ static bool rbusSubscriptions_isListenerRunning(char const* listener)
     return true;
 }
 
+/*these check all they read: the cache file may be damaged*/
+static bool readCachedHeader(rbusBuffer_t buff, uint16_t wantType, uint16_t* length)
+{
+    uint16_t type;
+    return rbusBuffer_ReadUInt16(buff, &type) == 0 &&
+           rbusBuffer_ReadUInt16(buff, length) == 0 &&
+           type == wantType;
+}
+
+static char* readCachedString(rbusBuffer_t buff)
+{
+    uint16_t length;
+    char const* s;
+
+    if(!readCachedHeader(buff, RBUS_STRING, &length))
+        return NULL;
+    s = (char const*)buff->data + buff->posRead;
+    if(length < 2 || length >= RBUS_MAX_NAME_LENGTH ||
+       length > buff->posWrite - buff->posRead ||
+       strnlen(s, length) != (size_t)length - 1)
+        return NULL;
+    buff->posRead += length;
+    return strdup(s);
+}
+
+static bool readCachedInt32(rbusBuffer_t buff, int32_t* value)
+{
+    uint16_t length;
+    return readCachedHeader(buff, RBUS_INT32, &length) &&
+           length == sizeof(int32_t) &&
+           rbusBuffer_ReadInt32(buff, value) == 0;
+}
+
 static void rbusSubscriptions_loadCache(rbusSubscriptions_t subscriptions)
 {
     struct stat st;
     long size;
-    uint16_t type, length;
-    int32_t hasFilter;
+    int32_t hasFilter, autoPublish, subscriptionId, rawData;
     FILE* file = NULL;
     rbusBuffer_t buff = NULL;
     rbusSubscription_t* sub = NULL;
@@ -489,80 +533,28 @@ static void rbusSubscriptions_loadCache(rbusSubscriptions_t subscriptions)
             RBUSLOG_ERROR("failed to malloc sub");
             goto remove_bad_file;
         }
-        //read listener
-        if(rbusBuffer_ReadUInt16(buff, &type) < 0) goto remove_bad_file;
-        if(rbusBuffer_ReadUInt16(buff, &length) < 0) goto remove_bad_file;
-        if(type != RBUS_STRING || length >= RBUS_MAX_NAME_LENGTH) goto remove_bad_file;
-
-        sub->listener = rt_calloc(1, length);
-        if(!sub->listener)
-        {
-            RBUSLOG_ERROR("failed to malloc %d bytes for listener", length);
-            goto remove_bad_file;
-        }
-        memcpy(sub->listener, buff->data + buff->posRead, length);
-        buff->posRead += length;
-
-        //read eventName
-        if(rbusBuffer_ReadUInt16(buff, &type) < 0) goto remove_bad_file;
-        if(rbusBuffer_ReadUInt16(buff, &length) < 0) goto remove_bad_file;
-        if(type != RBUS_STRING || length >= RBUS_MAX_NAME_LENGTH) goto remove_bad_file;
-
-        sub->eventName = rt_try_calloc(1, length);
-        if(!sub->eventName)
-        {
-            RBUSLOG_ERROR("failed to malloc %d bytes for eventName", length);
+        if(!(sub->listener = readCachedString(buff)) ||
+           !(sub->eventName = readCachedString(buff)) ||
+           !readCachedInt32(buff, &sub->componentId) ||
+           !readCachedInt32(buff, &sub->interval) || sub->interval < 0 ||
+           !readCachedInt32(buff, &sub->duration) || sub->duration < 0 ||
+           !readCachedInt32(buff, &autoPublish) ||
+           !readCachedInt32(buff, &subscriptionId) ||
+           !readCachedInt32(buff, &rawData) ||
+           !readCachedInt32(buff, &hasFilter))
             goto remove_bad_file;
-        }
-        memcpy(sub->eventName, buff->data + buff->posRead, length);
-        buff->posRead += length;
-
-        //read componentId
-        if(rbusBuffer_ReadUInt16(buff, &type) < 0) goto remove_bad_file;
-        if(rbusBuffer_ReadUInt16(buff, &length) < 0) goto remove_bad_file;
-        if(type != RBUS_INT32 && length != sizeof(int32_t)) goto remove_bad_file;
-        if(rbusBuffer_ReadInt32(buff, &sub->componentId) < 0) goto remove_bad_file;
-
-        //read interval
-        if(rbusBuffer_ReadUInt16(buff, &type) < 0) goto remove_bad_file;
-        if(rbusBuffer_ReadUInt16(buff, &length) < 0) goto remove_bad_file;
-        if(type != RBUS_INT32 && length != sizeof(int32_t)) goto remove_bad_file;
-        if(rbusBuffer_ReadInt32(buff, &sub->interval) < 0) goto remove_bad_file;
-
-        //read duration        
-        if(rbusBuffer_ReadUInt16(buff, &type) < 0) goto remove_bad_file;
-        if(rbusBuffer_ReadUInt16(buff, &length) < 0) goto remove_bad_file;
-        if(type != RBUS_INT32 && length != sizeof(int32_t)) goto remove_bad_file;
-        if(rbusBuffer_ReadInt32(buff, &sub->duration) < 0) goto remove_bad_file;
-
-        //read autoPublish
-        if(rbusBuffer_ReadUInt16(buff, &type) < 0) goto remove_bad_file;
-        if(rbusBuffer_ReadUInt16(buff, &length) < 0) goto remove_bad_file;
-        if(type != RBUS_INT32 && length != sizeof(int32_t)) goto remove_bad_file;
-        if(rbusBuffer_ReadInt32(buff, (int*)&sub->autoPublish) < 0) goto remove_bad_file;
-
-        //read subscriptionId
-        if(rbusBuffer_ReadUInt16(buff, &type) < 0) goto remove_bad_file;
-        if(rbusBuffer_ReadUInt16(buff, &length) < 0) goto remove_bad_file;
-        if(type != RBUS_INT32 && length != sizeof(int32_t)) goto remove_bad_file;
-        if(rbusBuffer_ReadInt32(buff, (int*)&sub->subscriptionId) < 0) goto remove_bad_file;
-
-        //read rawData
-        if(rbusBuffer_ReadUInt16(buff, &type) < 0) goto remove_bad_file;
-        if(rbusBuffer_ReadUInt16(buff, &length) < 0) goto remove_bad_file;
-        if(type != RBUS_INT32 && length != sizeof(int32_t)) goto remove_bad_file;
-        if(rbusBuffer_ReadInt32(buff, (int*)&sub->rawData) < 0) goto remove_bad_file;
-
-        //read hasFilter
-        if(rbusBuffer_ReadUInt16(buff, &type) < 0) goto remove_bad_file;
-        if(rbusBuffer_ReadUInt16(buff, &length) < 0) goto remove_bad_file;
-        if(type != RBUS_INT32 && length != sizeof(int32_t)) goto remove_bad_file;
-        if(rbusBuffer_ReadInt32(buff, &hasFilter) < 0) goto remove_bad_file;
+        sub->autoPublish = autoPublish != 0;
+        sub->subscriptionId = (uint32_t)subscriptionId;
+        sub->rawData = rawData != 0;
 
         //read filter
         if(hasFilter)
         {
-            if(rbusFilter_Decode(&sub->filter, buff) < 0) goto remove_bad_file;
+            if(rbusFilter_Decode(&sub->filter, buff) < 0)
+            {
+                sub->filter = NULL;
+                goto remove_bad_file;
+            }
         }
         else
         {
@@ -578,6 +570,7 @@ static void rbusSubscriptions_loadCache(rbusSubscriptions_t subscriptions)
         {
             RBUSLOG_INFO("process no longer running for listener %s", sub->listener);
             subscriptionFree(sub);
+            sub = NULL;
             needSave = true;
             continue;
         }
@@ -590,6 +583,7 @@ static void rbusSubscriptions_loadCache(rbusSubscriptions_t subscriptions)
             {
                 RBUSLOG_ERROR("file doesn't exist %s", filename);
                 subscriptionFree(sub);
+                sub = NULL;
                 needSave = true;
                 continue;
             }
@@ -599,6 +593,7 @@ static void rbusSubscriptions_loadCache(rbusSubscriptions_t subscriptions)
         rtList_PushBack(subscriptions->subList, sub, NULL);
 
         RBUSLOG_INFO("loaded %s %s", sub->listener, sub->eventName);
+        sub = NULL;
     }
 
     rbusBuffer_Destroy(buff);
@@ -621,8 +616,8 @@ remove_bad_file:
     if(sub)
         subscriptionFree(sub);
 
-    if(remove(filePath) != 0)
-        RBUSLOG_ERROR("failed to remove %s", filePath);
+    /*keep what could be read*/
+    rbusSubscriptions_saveCache(subscriptions);
 }
 
 static void rbusSubscriptions_saveCache(rbusSubscriptions_t subscriptions)
@@ -632,8 +627,11 @@ static void rbusSubscriptions_saveCache(rbusSubscriptions_t subscriptions)
     rtListItem item;
     rbusSubscription_t* sub;
     char filePath[256];
+    char newPath[256 + 4];
+    bool written;
 
     snprintf(filePath, 256, CACHE_FILE_PATH_FORMAT, subscriptions->tmpDir, subscriptions->componentName);
+    snprintf(newPath, sizeof(newPath), "%s.new", filePath);
 
     RBUSLOG_DEBUG("saving Cache %s", filePath);
 
@@ -649,11 +647,12 @@ static void rbusSubscriptions_saveCache(rbusSubscriptions_t subscriptions)
         return;
     }
 
-    file = fopen(filePath, "wb");
+    /*written aside and renamed: a crash must not leave a part of it*/
+    file = fopen(newPath, "wb");
 
     if(!file)
     {
-        RBUSLOG_ERROR("failed to open %s", filePath);
+        RBUSLOG_ERROR("failed to open %s", newPath);
         return;
     }
 
@@ -666,6 +665,7 @@ static void rbusSubscriptions_saveCache(rbusSubscriptions_t subscriptions)
         {
             rbusBuffer_Destroy(buff);
             fclose(file);
+            remove(newPath);
             return;
         }
         rbusBuffer_WriteStringTLV(buff, sub->listener, strlen(sub->listener)+1);
@@ -685,11 +685,18 @@ static void rbusSubscriptions_saveCache(rbusSubscriptions_t subscriptions)
         rtListItem_GetNext(item, &item);
     }
 
-    fwrite(buff->data, 1, buff->posWrite, file);
+    written = fwrite(buff->data, 1, buff->posWrite, file) == (size_t)buff->posWrite;
 
     rbusBuffer_Destroy(buff);
 
-    fclose(file);
+    if(fclose(file) != 0)
+        written = false;
+
+    if(!written || rename(newPath, filePath) != 0)
+    {
+        RBUSLOG_ERROR("failed to write %s", filePath);
+        remove(newPath);
+    }
 }
 
 /*this is basicially a strcmp with the addition that it will ignore any wildcard (e.g. "*") in the event name
@@ -738,6 +745,47 @@ static int _compareEventNameToElemName(char const* event, char const* elem)
     }
 }
 
+/*subscribes again what was loaded from the cache.  subscribeHandlerImpl calls the provider's handler, so this is done without
+  the lock and with copies: meanwhile the subscriber can unsubscribe, or others subscribe.  What was loaded stays in the list, and
+  in the cache file, until subscribeHandlerImpl replaces it.*/
+static void resubscribeLoaded(rbusHandle_t handle, rbusSubscriptions_t subscriptions, elementNode* el, rbusSubscription_t const* loaded)
+{
+    rbusSubscription_t* sub;
+    rbusError_t err;
+    char* eventName = strdup(loaded->eventName);
+    char* listener = strdup(loaded->listener);
+    int32_t componentId = loaded->componentId;
+    int32_t interval = loaded->interval;
+    int32_t duration = loaded->duration;
+    bool rawData = loaded->rawData;
+    rbusFilter_t filter = loaded->filter;
+
+    if(filter)
+        rbusFilter_Retain(filter);
+    HANDLE_SUBS_MUTEX_UNLOCK(handle);
+
+    RBUSLOG_INFO("resubscribing %s for %s", eventName, listener);
+    err = subscribeHandlerImpl(handle, true, el, eventName, listener, componentId, interval, duration, filter, rawData, NULL);
+    /*TODO figure out what to do if we get an error resubscribing
+    It's conceivable that a provider might not like the sub due to some state change between this and the previous process run
+    */
+    (void)err;
+
+    HANDLE_SUBS_MUTEX_LOCK(handle);
+    sub = rbusSubscriptions_getSubscription(subscriptions, listener, eventName, componentId, filter, interval, duration, rawData);
+    if(sub && rbusSubscriptions_isLoaded(sub))
+        rbusSubscriptions_removeSubscription(subscriptions, sub);/*refused*/
+    if(filter)
+        rbusFilter_Release(filter);
+    free(eventName);
+    free(listener);
+}
+
+bool rbusSubscriptions_isLoaded(rbusSubscription_t const* sub)
+{
+    return sub->element == NULL && sub->tokens == NULL;
+}
+
 void rbusSubscriptions_resubscribeElementCache(rbusHandle_t handle, rbusSubscriptions_t subscriptions, char const* elementName, elementNode* el)
 {
     rtListItem item;
@@ -747,81 +795,57 @@ void rbusSubscriptions_resubscribeElementCache(rbusHandle_t handle, rbusSubscrip
     VERIFY_NULL(el);
     RBUSLOG_DEBUG("event %s", elementName);
 
+    HANDLE_SUBS_MUTEX_LOCK(handle);
     rtList_GetFront(subscriptions->subList, &item);
-
     while(item)
     {
         rtListItem_GetData(item, (void**)&sub);
-
-        VERIFY_NULL(sub);
-
-        if(sub->element == NULL && sub->tokens == NULL &&/*not already subscribed*/
+        if(sub && rbusSubscriptions_isLoaded(sub) && !sub->resubscribing &&
            _compareEventNameToElemName(sub->eventName, elementName) == 0)
         {
-            rtListItem next;
-            rbusError_t err;
-            RBUSLOG_INFO("resubscribing %s for %s", sub->eventName, sub->listener);
-            rtListItem_GetNext(item, &next);
-            rtList_RemoveItem(subscriptions->subList, item, NULL);/*remove before calling subscribeHandlerImpl to avoid dupes in cache file*/
-            err = subscribeHandlerImpl(handle, true, el, sub->eventName, sub->listener, sub->componentId, sub->interval, sub->duration, sub->filter, sub->rawData, &sub->subscriptionId);
-            /*TODO figure out what to do if we get an error resubscribing
-            It's conceivable that a provider might not like the sub due to some state change between this and the previous process run
-            */
-            (void)err;
-            subscriptionFree(sub);
-            item = next;
+            sub->resubscribing = true;
+            resubscribeLoaded(handle, subscriptions, el, sub);
+            rtList_GetFront(subscriptions->subList, &item);/*the list has changed*/
         }
         else
         {
             rtListItem_GetNext(item, &item);
         }
     }
+    HANDLE_SUBS_MUTEX_UNLOCK(handle);
 }
 
 void rbusSubscriptions_resubscribeRowElementCache(rbusHandle_t handle, rbusSubscriptions_t subscriptions, elementNode* rowNode)
 {
-    rtListItem item = NULL;
-    rbusSubscription_t* sub = NULL;
-    elementNode* el = NULL;
-    rbusError_t err = RBUS_ERROR_SUCCESS;
-    size_t size = 0;
-    unsigned int count = 0;
+    rtListItem item;
+    rbusSubscription_t* sub;
+    elementNode* el;
+    size_t len;
     struct _rbusHandle* handleInfo = (struct _rbusHandle*)handle;
 
-    if(subscriptions)
-    {
-        rtList_GetFront(subscriptions->subList, &item);
-        rtList_GetSize(subscriptions->subList, &size);
-    }
+    VERIFY_NULL(subscriptions);
+    VERIFY_NULL(rowNode);
 
-    while(item && (count < size))
+    len = strlen(rowNode->fullName);
+    HANDLE_SUBS_MUTEX_LOCK(handle);
+    rtList_GetFront(subscriptions->subList, &item);
+    while(item)
     {
-        /* This count matters otherwise, the sublist will go on forever as we push the new subscription at the end of the list */
-        count++;
         rtListItem_GetData(item, (void**)&sub);
-        if(sub)
+        if(sub && rbusSubscriptions_isLoaded(sub) && !sub->resubscribing &&
+           strncmp(sub->eventName, rowNode->fullName, len) == 0 && sub->eventName[len] == '.' &&
+           (el = retrieveInstanceElement(handleInfo->elementRoot, sub->eventName)) != NULL)
         {
-            rtListItem next = NULL;
-            rtListItem_GetNext(item, &next);
-            if(strncmp(sub->eventName, rowNode->fullName, strlen(rowNode->fullName)) == 0)
-            {
-                el = retrieveInstanceElement(handleInfo->elementRoot, sub->eventName);
-                if(el)
-                {
-                    RBUSLOG_INFO("resubscribing %s for %s", sub->eventName, sub->listener);
-                    rtList_RemoveItem(subscriptions->subList, item, NULL);
-                    err = subscribeHandlerImpl(handle, true, el, sub->eventName, sub->listener, sub->componentId, sub->interval, sub->duration, sub->filter, sub->rawData, &sub->subscriptionId);
-                    (void)err;
-                    subscriptionFree(sub);
-                }
-            }
-
-            /* Move to Next */
-            item = next;
+            sub->resubscribing = true;
+            resubscribeLoaded(handle, subscriptions, el, sub);
+            rtList_GetFront(subscriptions->subList, &item);/*the list has changed*/
         }
         else
-            break;
+        {
+            rtListItem_GetNext(item, &item);
+        }
     }
+    HANDLE_SUBS_MUTEX_UNLOCK(handle);
 }
 
 void rbusSubscriptions_handleClientDisconnect(rbusHandle_t handle, rbusSubscriptions_t subscriptions, char const* listener)
diff --git a/src/rbus/rbus_subscriptions.h b/src/rbus/rbus_subscriptions.h
index 55b0bca..680337a 100644
--- a/src/rbus/rbus_subscriptions.h
+++ b/src/rbus/rbus_subscriptions.h
@@ -48,6 +48,7 @@ typedef struct _rbusSubscription
                                                                 Device.WiFi.AccessPoint.2.AssociatedDevice.1.SignalStrength */
     bool rawData;
     uint32_t subscriptionId;
+    bool resubscribing;         /* loaded from the cache, and being subscribed again */
 } rbusSubscription_t;
 
 /*create a new subscriptions registry for an rbus handle*/
@@ -62,6 +63,12 @@ rbusSubscription_t* rbusSubscriptions_addSubscription(rbusSubscriptions_t subscr
 /*get an existing subscription by searching for its unique key [listener, eventName, filter]*/
 rbusSubscription_t* rbusSubscriptions_getSubscription(rbusSubscriptions_t subscriptions, char const* listener, char const* eventName, int32_t componentId, rbusFilter_t filter, int32_t interval, int32_t duration, bool rawData);
 
+/*true if a subscription has been loaded from the cache and not yet been subscribed again*/
+bool rbusSubscriptions_isLoaded(rbusSubscription_t const* sub);
+
+/*remove an existing subscription, which stays in the cache file until that is saved the next time*/
+void rbusSubscriptions_takeOut(rbusSubscriptions_t subscriptions, rbusSubscription_t* sub);
+
 /*remove an existing subscription*/
 void rbusSubscriptions_removeSubscription(rbusSubscriptions_t subscriptions, rbusSubscription_t* sub);
 
-- 
2.43.0


From f6da7f6963b02f12498db448c08d037cef9e2a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:04 +0000
Subject: [PATCH 35/46] fix: damaged subscription cache crashed the provider

Decoding a value or a filter from the cache trusted lengths and types in
it: asserts, reads past the data, use of an uninitialised filter.
---
 src/rbus/rbus_buffer.c |  2 +-
 src/rbus/rbus_filter.c | 27 +++++++++++++++++++++++----
 src/rbus/rbus_value.c  | 14 +++++++-------
 3 files changed, 31 insertions(+), 12 deletions(-)

diff --git a/src/rbus/rbus_buffer.c b/src/rbus/rbus_buffer.c
index 5241cd8..f3d8949 100644
--- a/src/rbus/rbus_buffer.c
+++ b/src/rbus/rbus_buffer.c
@@ -257,7 +257,7 @@ int rbusBuffer_Read(rbusBuffer_t const buff, void* data, int len)
 {
     if((!buff) || (!data))
         return -1;
-    if(!(buff->posRead + len < buff->lenAlloc))
+    if(len < 0 || len > buff->posWrite - buff->posRead)
     {
         RBUSLOG_WARN("rbusBuffer_Read failed");
         return -1;
diff --git a/src/rbus/rbus_filter.c b/src/rbus/rbus_filter.c
index 1edc8bf..fd435cf 100644
--- a/src/rbus/rbus_filter.c
+++ b/src/rbus/rbus_filter.c
@@ -26,6 +26,7 @@
 #include "rbus_buffer.h"
 
 #define VERIFY_NULL(T) if(NULL == T){ return; }
+#define RBUS_FILTER_MAX_DEPTH 256
 typedef struct _rbusFilter_LogicExpression* rbusFilter_LogicExpression_t;
 
 struct _rbusFilter_RelationExpression
@@ -234,11 +235,11 @@ void rbusFilter_Encode(rbusFilter_t filter, rbusBuffer_t buff)
     }
 }
 
-int rbusFilter_Decode(rbusFilter_t* filterOut, rbusBuffer_t const buff)
+static int rbusFilter_DecodeInternal(rbusFilter_t* filterOut, rbusBuffer_t const buff, int depth)
 {
     uint16_t    type;
     uint16_t    length;
-    rbusFilter_t filter;
+    rbusFilter_t filter = NULL;
     rbusFilter_ExpressionType_t filterType;
     rbusFilter_RelationOperator_t relOp;
     rbusFilter_LogicOperator_t logOp;
@@ -289,19 +290,37 @@ int rbusFilter_Decode(rbusFilter_t* filterOut, rbusBuffer_t const buff)
         }
         if(rbusBuffer_ReadUInt32(buff, &logOp) < 0)
             return -1;
-        if(rbusFilter_Decode(&left, buff) < 0)
+        if(depth >= RBUS_FILTER_MAX_DEPTH)
+        {
+            RBUSLOG_WARN("rbusFilter_Decode failed");
+            return -1;
+        }
+        if(rbusFilter_DecodeInternal(&left, buff, depth + 1) < 0)
             return -1;
-        if(rbusFilter_Decode(&right, buff) < 0)
+        if(rbusFilter_DecodeInternal(&right, buff, depth + 1) < 0)
+        {
+            rbusFilter_Release(left);
             return -1;
+        }
 
         rbusFilter_InitLogic(&filter, logOp, left, right);
         rbusFilter_Release(left);
         rbusFilter_Release(right);
     }
+    else
+    {
+        RBUSLOG_WARN("rbusFilter_Decode failed");
+        return -1;
+    }
     *filterOut = filter;
     return 0;
 }
 
+int rbusFilter_Decode(rbusFilter_t* filterOut, rbusBuffer_t const buff)
+{
+    return rbusFilter_DecodeInternal(filterOut, buff, 0);
+}
+
 int rbusFilter_Compare(rbusFilter_t filter1, rbusFilter_t filter2)
 {
     if(filter1 && filter2)
diff --git a/src/rbus/rbus_value.c b/src/rbus/rbus_value.c
index d95405e..d323a22 100644
--- a/src/rbus/rbus_value.c
+++ b/src/rbus/rbus_value.c
@@ -719,23 +719,23 @@ int rbusValue_Decode(rbusValue_t* value, rbusBuffer_t const buff)
         return -1;
     }
 
-    current->type = type;
     switch(type)
     {
     /*Calling rbusValue_SetString/rbusValue_SetBytes so the value's internal buffer is created.*/
     case RBUS_STRING:
-        if(!(buff->posRead + length <= buff->lenAlloc))
+        /*length should captures null term*/
+        if(length > buff->posWrite - buff->posRead ||
+           strnlen((char const*)buff->data + buff->posRead, length) + 1 != (size_t)length)
         {
             RBUSLOG_WARN("rbusValue_Decode failed");
             rbusValue_Release(*value);
             return -1;
         }
-        assert(strlen((char const*)buff->data + buff->posRead) + 1 == (size_t)length);/*length should captures null term*/
         rbusValue_SetString(current, (char const*)buff->data + buff->posRead);
         buff->posRead += length;
         return length;
     case RBUS_BYTES:
-        if(!(buff->posRead + length <= buff->lenAlloc))
+        if(length > buff->posWrite - buff->posRead)
         {
             RBUSLOG_WARN("rbusValue_Decode failed");
             rbusValue_Release(*value);
@@ -788,9 +788,8 @@ int rbusValue_Decode(rbusValue_t* value, rbusBuffer_t const buff)
         rc = rbusBuffer_ReadDateTime(buff, &current->d.tv);
         break;
     default:
-        rbusValue_Release(*value);
-        assert(false);
-        return -1;
+        rc = -1;
+        break;
     }
     if (rc != 0)
     {
@@ -799,6 +798,7 @@ int rbusValue_Decode(rbusValue_t* value, rbusBuffer_t const buff)
         return -1;
     }
     /* If we reach here, we have successfully read the value */
+    current->type = type;
     return rc;
 }
 
-- 
2.43.0


From 16a9de69c057c5c7125049a3952d5478fa0230fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:17 +0000
Subject: [PATCH 36/46] fix: an interval of more than 24 days busy looped

---
 src/rbus/rbus_intervalsubscription.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rbus/rbus_intervalsubscription.c b/src/rbus/rbus_intervalsubscription.c
index 61b4378..73b236b 100644
--- a/src/rbus/rbus_intervalsubscription.c
+++ b/src/rbus/rbus_intervalsubscription.c
@@ -160,7 +160,8 @@ static void* PublishingThreadFunc(void* rec)
         char *tmpptr = NULL;
         rtTime_t timeout;
         rtTimespec_t ts;
-        rtTime_Later(NULL, (sub_rec->interval*1000), &timeout);
+        rtTime_Now(&timeout);
+        timeout.tv_sec += (uint32_t)sub_rec->interval; /*in milliseconds it can exceed an int*/
         rtTime_ToTimespec(&timeout, &ts);
         while(sub_rec->running && err == 0)
         {
-- 
2.43.0


From 78e1e93383415c00477fed576f2a87c18f13e96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:09 +0000
Subject: [PATCH 37/46] fix: unsubscribing while an event was delivered
 deadlocked, concurrent subscribe and unsubscribe got out of step

The handle's subscription mutex was held while the provider was asked to
unsubscribe. When the provider was the same process, or asked this one in
turn, its thread waited for that mutex to deliver an event. Two threads
subscribing to the same event both succeeded.
---
 src/rbus/rbus.c | 111 +++++++++++++++++++++++++++++++++---------------
 1 file changed, 77 insertions(+), 34 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 585afac..253c63a 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -113,6 +113,7 @@ typedef struct _rbusEventSubscriptionInternal
  {
     bool                        dirty;
     bool                        rawData;
+    bool                        busy; /*a thread is subscribing or unsubscribing it, and others leave it alone*/
     rbusEventSubscription_t*    sub;
     uint32_t                    subscriptionId;
  } rbusEventSubscriptionInternal_t;
@@ -307,7 +308,7 @@ void rbusEventSubscriptionInternal_free(void* p)
     rbusEventSubscription_free(sub);
 }
 
-static rbusEventSubscriptionInternal_t* rbusEventSubscription_find(rtVector eventSubs, char const* eventName,
+static rbusEventSubscriptionInternal_t* rbusEventSubscription_findAny(rtVector eventSubs, char const* eventName,
         rbusFilter_t filter, uint32_t interval, uint32_t duration, bool rawData)
 {
     /*FIXME - convert to map */
@@ -325,6 +326,13 @@ static rbusEventSubscriptionInternal_t* rbusEventSubscription_find(rtVector even
     return NULL;
 }
 
+static rbusEventSubscriptionInternal_t* rbusEventSubscription_find(rtVector eventSubs, char const* eventName,
+        rbusFilter_t filter, uint32_t interval, uint32_t duration, bool rawData)
+{
+    rbusEventSubscriptionInternal_t* subInternal = rbusEventSubscription_findAny(eventSubs, eventName, filter, interval, duration, rawData);
+    return subInternal && !subInternal->busy ? subInternal : NULL;
+}
+
 rbusError_t rbusHandle_ConfigTimeoutValues(rbusHandle_t handle, rbusTimeoutValues_t timeoutValues)
 {
     VERIFY_NULL(handle);
@@ -346,7 +354,7 @@ rbusError_t rbusOpenDirect_SubAdd(rbusHandle_t handle, rtVector eventSubs, char
     for(i=0; i < rtVector_Size(eventSubs); ++i)
     {
         subInternal = (rbusEventSubscriptionInternal_t*)rtVector_At(eventSubs, i);
-        if(subInternal && !strcmp(subInternal->sub->eventName, eventName))
+        if(subInternal && !subInternal->busy && !strcmp(subInternal->sub->eventName, eventName))
         {
             if(subInternal->rawData)
                 snprintf(rawDataTopic, RBUS_MAX_NAME_LENGTH, "rawdata.%s", subInternal->sub->eventName);
@@ -386,7 +394,7 @@ rbusError_t rbusCloseDirect_SubRemove(rbusHandle_t handle, rtVector eventSubs, c
     for(i=0; i < rtVector_Size(eventSubs); ++i)
     {
         subInternal = (rbusEventSubscriptionInternal_t*)rtVector_At(eventSubs, i);
-        if(subInternal && !strcmp(subInternal->sub->eventName, eventName) && subInternal->rawData)
+        if(subInternal && !subInternal->busy && !strcmp(subInternal->sub->eventName, eventName) && subInternal->rawData)
         {
             snprintf(rawDataTopic, RBUS_MAX_NAME_LENGTH, "%s", subInternal->sub->eventName);
             errorcode = rbusMessage_RemovePrivateListener(handle, rawDataTopic, subInternal->subscriptionId);
@@ -1391,7 +1399,7 @@ void _subscribe_async_callback_handler(rbusHandle_t handle, rbusEventSubscriptio
         {
             rtVector_RemoveItem(handleInfo->eventSubs, subInternal, rbusEventSubscriptionInternal_free);
         }
-        subInternal = rt_malloc(sizeof(rbusEventSubscriptionInternal_t));
+        subInternal = rt_calloc(1, sizeof(rbusEventSubscriptionInternal_t));
         subInternal->sub = subscription;
         subInternal->dirty = false;
         subInternal->subscriptionId = subscriptionId;
@@ -3245,10 +3253,8 @@ rbusError_t rbus_close(rbusHandle_t handle)
     HANDLE_EVENTSUBS_MUTEX_LOCK(handle);
     if(handleInfo->eventSubs)
     {
-        int i;
-        int count = (int)rtVector_Size(handleInfo->eventSubs);
-        RBUSLOG_DEBUG("Cleaning up all (%d) subscriptions", count);
-        for(i = 0; i < count; ++i)
+        RBUSLOG_DEBUG("Cleaning up all (%d) subscriptions", (int)rtVector_Size(handleInfo->eventSubs));
+        while(rtVector_Size(handleInfo->eventSubs) > 0)
         {
             rbusEventSubscriptionInternal_t* subInternal = NULL;
             subInternal = (rbusEventSubscriptionInternal_t*)rtVector_At(handleInfo->eventSubs, 0);
@@ -5063,6 +5069,7 @@ static rbusError_t _rbus_event_unsubscribe(
         rbusEventSubscriptionInternal_t* subInternal)
 {
     rbusError_t errorcode = RBUS_ERROR_SUCCESS;
+    bool dirty = subInternal->dirty;
     struct _rbusHandle* handleInfo = (struct _rbusHandle*)handle;
     char rawDataTopic[RBUS_MAX_NAME_LENGTH] = {0};
     rbusEventSubscription_t* subscription = (rbusEventSubscription_t*)subInternal->sub;
@@ -5098,8 +5105,22 @@ static rbusError_t _rbus_event_unsubscribe(
         }
     }
 
+    /*The provider can be this process, and its thread be waiting for the mutex to deliver an event.
+      A dirty one isn't subscribed any more for others, who'd see it while it's unlocked*/
+    if(!dirty)
+    {
+        subInternal->busy = true;
+        HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
+    }
+
     coreerr = rbus_unsubscribeFromEvent(NULL, subscription->eventName, payload, subInternal->rawData);
 
+    if(!dirty)
+    {
+        HANDLE_EVENTSUBS_MUTEX_LOCK(handle);
+        subInternal->busy = false;
+    }
+
     if(payload)
     {
         rbusMessage_Release(payload);
@@ -5129,6 +5150,17 @@ static rbusError_t _rbus_event_unsubscribe(
     return errorcode;
 }
 
+static void rbusEventSubscription_subscribed(rbusEventSubscriptionInternal_t* subInternal, rbusEventSubscription_t* sub)
+{
+    if(subInternal->sub != sub)
+    {
+        rbusEventSubscription_free(subInternal->sub); /*the one that was dirty*/
+        subInternal->sub = sub;
+    }
+    subInternal->dirty = false;
+    subInternal->busy = false;
+}
+
 static rbusError_t rbusEvent_SubscribeWithRetries(
     rbusHandle_t                    handle,
     char const*                     eventName,
@@ -5168,9 +5200,9 @@ static rbusError_t rbusEvent_SubscribeWithRetries(
         rbusFilter_Retain(sub->filter);
 
     HANDLE_EVENTSUBS_MUTEX_LOCK(handle);
-    subInternal = rbusEventSubscription_find(handleInfo->eventSubs, eventName, filter, interval, duration, rawData);
+    subInternal = rbusEventSubscription_findAny(handleInfo->eventSubs, eventName, filter, interval, duration, rawData);
     /*Allow only for dirty subscription*/
-    if((subInternal && !subInternal->dirty) || (!rawData && rbusAsyncSubscribe_GetSubscription(sub)))
+    if((subInternal && (subInternal->busy || !subInternal->dirty)) || (!rawData && rbusAsyncSubscribe_GetSubscription(sub)))
     {
         HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
         rbusEventSubscription_free(sub);
@@ -5178,8 +5210,20 @@ static rbusError_t rbusEvent_SubscribeWithRetries(
     }
     if(subInternal)
     {
-        subInternal->dirty = false;
         wasDirty = true;
+        if(sub->asyncHandler)
+            subInternal->dirty = false;
+    }
+    else if(!sub->asyncHandler)
+    {
+        subInternal = rt_calloc(1, sizeof(rbusEventSubscriptionInternal_t));
+        subInternal->sub = sub;
+        subInternal->rawData = rawData;
+        rtVector_PushBack(handleInfo->eventSubs, subInternal);
+    }
+    if(!sub->asyncHandler)
+    {
+        subInternal->busy = true; /*for others, until the provider has answered*/
     }
 
     payload = rbusEvent_CreateSubscribePayload(sub, handleInfo->componentId);
@@ -5247,15 +5291,7 @@ static rbusError_t rbusEvent_SubscribeWithRetries(
         int initial_value = 0;
         int32_t subscriptionId = 0;
         HANDLE_EVENTSUBS_MUTEX_LOCK(handle);
-        if ((subInternal = rbusEventSubscription_find(handleInfo->eventSubs, eventName, filter, interval, duration, rawData)) != NULL)
-        {
-            rtVector_RemoveItem(handleInfo->eventSubs, subInternal, rbusEventSubscriptionInternal_free);
-        }
-        subInternal = rt_malloc(sizeof(rbusEventSubscriptionInternal_t));
-        subInternal->sub = sub;
-        subInternal->dirty = false;
-        subInternal->rawData = rawData;
-        rtVector_PushBack(handleInfo->eventSubs, subInternal);
+        rbusEventSubscription_subscribed(subInternal, sub);
         if(publishOnSubscribe)
         {
             rbusMessage_GetInt32(response, &initial_value);
@@ -5279,12 +5315,13 @@ static rbusError_t rbusEvent_SubscribeWithRetries(
     }
     else
     {
-        if(wasDirty && (coreerr == RBUSCORE_ERROR_ENTRY_NOT_FOUND || providerError != RBUS_ERROR_SUBSCRIPTION_ALREADY_EXIST))
+        if(coreerr == RBUSCORE_ERROR_ENTRY_NOT_FOUND || providerError != RBUS_ERROR_SUBSCRIPTION_ALREADY_EXIST)
         {
             HANDLE_EVENTSUBS_MUTEX_LOCK(handle);
-            if ((subInternal = rbusEventSubscription_find(handleInfo->eventSubs, eventName, filter, interval, duration, rawData)) != NULL)
+            subInternal->busy = false;
+            if(!wasDirty)
             {
-                subInternal->dirty = true;
+                rtVector_RemoveItem(handleInfo->eventSubs, subInternal, free);
             }
             HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
         }
@@ -5307,16 +5344,8 @@ static rbusError_t rbusEvent_SubscribeWithRetries(
                     rbusMessage_Release(response);
                 }
                 HANDLE_EVENTSUBS_MUTEX_LOCK(handle);
-                if ((subInternal = rbusEventSubscription_find(handleInfo->eventSubs, eventName, filter, interval, duration, rawData)) != NULL)
-                {
-                    rtVector_RemoveItem(handleInfo->eventSubs, subInternal, rbusEventSubscriptionInternal_free);
-                }
-                subInternal = rt_malloc(sizeof(rbusEventSubscriptionInternal_t));
-                subInternal->sub = sub;
-                subInternal->dirty = false;
-                subInternal->rawData = rawData;
+                rbusEventSubscription_subscribed(subInternal, sub);
                 subInternal->subscriptionId = subscriptionId;
-                rtVector_PushBack(handleInfo->eventSubs, subInternal);
                 RBUSLOG_INFO("EVENT_SUBSCRIPTION_ALREADY_EXIST  %s", subInternal->sub->eventName);
                 HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
                 return RBUS_ERROR_SUCCESS;
@@ -5548,10 +5577,24 @@ rbusError_t rbusEvent_Unsubscribe(
 
     if(subInternal)
     {
+        bool dirty = subInternal->dirty;
         rbusMessage payload = rbusEvent_CreateSubscribePayload(subInternal->sub, handleInfo->componentId);
 
+        /*as in _rbus_event_unsubscribe*/
+        if(!dirty)
+        {
+            subInternal->busy = true;
+            HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
+        }
+
         rbusCoreError_t coreerr = rbus_unsubscribeFromEvent(NULL, eventName, payload, subInternal->rawData);
 
+        if(!dirty)
+        {
+            HANDLE_EVENTSUBS_MUTEX_LOCK(handle);
+            subInternal->busy = false;
+        }
+
         if(payload)
         {
             rbusMessage_Release(payload);
@@ -5720,7 +5763,7 @@ rbusError_t rbusEvent_SubscribeExRawData(
                 So, as a transaction, we just undo everything, which are all those from 0 to i-1.
             */
             if(i > 0)
-                rbusEvent_UnsubscribeEx(handle, subscription, i);
+                rbusEvent_UnsubscribeExRawData(handle, subscription, i);
             break;
         }
         else
@@ -5860,8 +5903,8 @@ rbusError_t rbusEvent_UnsubscribeExRawData(
             RBUSLOG_INFO("%s no existing subscription found", subscription[i].eventName);
             errorcode = RBUS_ERROR_INVALID_OPERATION; //TODO - is the the right error to return
         }
+        HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
     }
-    HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
     return errorcode;
 }
 
-- 
2.43.0


From 9f893e9b275055e0a930868ebd9053cb8746997f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:59 +0000
Subject: [PATCH 38/46] fix: a raw data subscription removed by another thread
 while being made crashed the subscriber

---
 src/rbus/rbus.c | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 253c63a..77e0fac 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -5463,12 +5463,20 @@ rbusError_t  rbusEvent_SubscribeRawData(
         return errorcode;
     }
 
+    HANDLE_EVENTSUBS_MUTEX_LOCK(handle);
+    subInternal = rbusEventSubscription_find(handleInfo->eventSubs, eventName, NULL, 0, 0, true);
+    if(!subInternal)
+    {
+        /*another thread has already unsubscribed again*/
+        HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
+        return RBUS_ERROR_SUCCESS;
+    }
+
     rtConnection myConn = rbuscore_FindClientPrivateConnection(eventName);
     if(myConn)
     {
         snprintf(rawDataTopic, RBUS_MAX_NAME_LENGTH, "rawdata.%s", eventName);
-        subInternal = rbusEventSubscription_find(handleInfo->eventSubs, eventName, NULL, 0, 0, true);
-        if(subInternal && rbusMessage_HasListener(handle,rawDataTopic))
+        if(rbusMessage_HasListener(handle,rawDataTopic))
         {
             errorcode = rbusMessage_RemoveListener(handle, rawDataTopic, subInternal->subscriptionId);
             if (errorcode != RT_OK)
@@ -5486,7 +5494,6 @@ rbusError_t  rbusEvent_SubscribeRawData(
     }
     else
     {
-        subInternal = rbusEventSubscription_find(handleInfo->eventSubs, eventName, NULL, 0, 0, true);
         snprintf(rawDataTopic, RBUS_MAX_NAME_LENGTH, "rawdata.%s", eventName);
         errorcode = rbusMessage_AddListener(handle, rawDataTopic,
                 _subscribe_rawdata_handler, (void *)(subInternal->sub), subInternal->subscriptionId);
@@ -5495,6 +5502,7 @@ rbusError_t  rbusEvent_SubscribeRawData(
             RBUSLOG_ERROR("%s: Listener failed err: %d", __FUNCTION__, errorcode);
         }
     }
+    HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
     return errorcode;
 }
 
@@ -5769,12 +5777,18 @@ rbusError_t rbusEvent_SubscribeExRawData(
         else
         {
             HANDLE_EVENTSUBS_MUTEX_LOCK(handle);
+            subInternal = rbusEventSubscription_find(handleInfo->eventSubs, subscription[i].eventName, subscription[i].filter, subscription[i].interval, subscription[i].duration, true);
+            if(!subInternal)
+            {
+                /*another thread has already unsubscribed again*/
+                HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
+                continue;
+            }
             rtConnection myConn = rbuscore_FindClientPrivateConnection(subscription[i].eventName);
             if(myConn)
             {
                 snprintf(rawDataTopic, RBUS_MAX_NAME_LENGTH, "rawdata.%s", subscription[i].eventName);
-                subInternal = rbusEventSubscription_find(handleInfo->eventSubs, subscription[i].eventName, subscription[i].filter, subscription[i].interval, subscription[i].duration, true);
-                if(subInternal && rbusMessage_HasListener(handle,rawDataTopic))
+                if(rbusMessage_HasListener(handle,rawDataTopic))
                 {
                     errorcode = rbusMessage_RemoveListener(handle, rawDataTopic, subInternal->subscriptionId);
                     if (errorcode != RT_OK)
@@ -5792,7 +5806,6 @@ rbusError_t rbusEvent_SubscribeExRawData(
             }
             else
             {
-                subInternal = rbusEventSubscription_find(handleInfo->eventSubs, subscription[i].eventName, subscription[i].filter, subscription[i].interval, subscription[i].duration, true);
                 snprintf(rawDataTopic, RBUS_MAX_NAME_LENGTH, "rawdata.%s", subscription[i].eventName);
                 errorcode = rbusMessage_AddListener(handle, rawDataTopic,
                         _subscribe_rawdata_handler, (void *)(subInternal->sub), subInternal->subscriptionId);
-- 
2.43.0


From 7dd15b4dc321e24e74936daa95fd320c00192133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:57 +0000
Subject: [PATCH 39/46] fix: a send interrupted by a signal was sent again from
 the start by a client, and left incomplete by the router

---
 src/rtmessage/rtConnection.c | 11 ++---------
 src/rtmessage/rtSocket.c     | 38 ++++++++++++++++++++++++++++++++++++
 src/rtmessage/rtSocket.h     |  5 +++++
 src/rtmessage/rtrouteBase.c  |  8 ++++----
 src/rtmessage/rtrouted.c     |  8 ++++----
 5 files changed, 53 insertions(+), 17 deletions(-)

diff --git a/src/rtmessage/rtConnection.c b/src/rtmessage/rtConnection.c
index 6e1057f..6e885d7 100644
--- a/src/rtmessage/rtConnection.c
+++ b/src/rtmessage/rtConnection.c
@@ -1327,7 +1327,6 @@ rtConnection_SendInternal(rtConnection con, uint8_t const* buff, uint32_t n, cha
   rtError err;
   int num_attempts;
   int max_attempts;
-  ssize_t bytes_sent;
   rtMessageHeader header;
   uint8_t const* message =NULL;
   uint32_t message_length;
@@ -1423,14 +1422,8 @@ rtConnection_SendInternal(rtConnection con, uint8_t const* buff, uint32_t n, cha
   do
   {
     err = RT_OK;
-    bytes_sent = sendmsg(con->fd, &send_hdr, MSG_NOSIGNAL);
-    if (bytes_sent != (ssize_t)(header.header_length + header.payload_length))
-    {
-      if (bytes_sent == -1)
-        err = rtErrorFromErrno(errno);
-      else
-        err = RT_FAIL;
-    }
+    if (rtSocket_SendAll(con->fd, &send_hdr, MSG_NOSIGNAL) == -1)
+      err = rtErrorFromErrno(errno);
 
     if (err != RT_OK && rtConnection_ShouldReregister(err))
     {
diff --git a/src/rtmessage/rtSocket.c b/src/rtmessage/rtSocket.c
index b3b9f93..8bdee22 100644
--- a/src/rtmessage/rtSocket.c
+++ b/src/rtmessage/rtSocket.c
@@ -266,3 +266,41 @@ rtSocketAddrStorage_GetLength(struct sockaddr_storage* ss, socklen_t* len)
 
   return RT_OK;
 }
+
+int
+rtSocket_SendAll(int fd, struct msghdr* msg, int flags)
+{
+  for (;;)
+  {
+    ssize_t n;
+
+    while (msg->msg_iovlen > 0 && msg->msg_iov[0].iov_len == 0)
+    {
+      msg->msg_iov++;
+      msg->msg_iovlen--;
+    }
+    if (msg->msg_iovlen == 0)
+      return 0;
+
+    n = sendmsg(fd, msg, flags);
+    if (n == -1)
+    {
+      if (errno == EINTR)
+        continue;
+      return -1;
+    }
+
+    while (n > 0)
+    {
+      size_t k = ((size_t)n < msg->msg_iov[0].iov_len) ? (size_t)n : msg->msg_iov[0].iov_len;
+      msg->msg_iov[0].iov_base = (char *)msg->msg_iov[0].iov_base + k;
+      msg->msg_iov[0].iov_len -= k;
+      n -= k;
+      if (msg->msg_iov[0].iov_len == 0)
+      {
+        msg->msg_iov++;
+        msg->msg_iovlen--;
+      }
+    }
+  }
+}
diff --git a/src/rtmessage/rtSocket.h b/src/rtmessage/rtSocket.h
index 41542a3..c9f96cf 100644
--- a/src/rtmessage/rtSocket.h
+++ b/src/rtmessage/rtSocket.h
@@ -25,6 +25,7 @@
 
 #include <arpa/inet.h>
 #include <netinet/in.h>
+#include <sys/socket.h>
 
 #ifdef __cplusplus
 extern "C" {
@@ -35,6 +36,10 @@ rtError rtSocketStorage_GetLength(struct sockaddr_storage* endpoint, socklen_t*
 rtError rtSocketStorage_ToString(struct sockaddr_storage* endpoint, char* buff, int n, uint16_t* port);
 rtError rtSocketStorage_FromString(struct sockaddr_storage* soc, char const* path);
 
+/*Sends all of a message, also when a signal interrupts the send. Returns 0, or -1 with errno set. Consumes msg->msg_iov,
+  so that calling it again after an error goes on with what was not sent.*/
+int rtSocket_SendAll(int fd, struct msghdr* msg, int flags);
+
 #ifdef __cplusplus
 }
 #endif
diff --git a/src/rtmessage/rtrouteBase.c b/src/rtmessage/rtrouteBase.c
index 6d2aa5d..f0d8441 100644
--- a/src/rtmessage/rtrouteBase.c
+++ b/src/rtmessage/rtrouteBase.c
@@ -153,7 +153,7 @@ static rtError
 _rtdirect_send_reply_to_client(rtConnectedClient* client, rtMessageHeader * request_hdr, const uint8_t* rspData, uint32_t rspDataLength)
 {
     rtError ret = RT_OK;
-    ssize_t bytes_sent;
+    int bytes_sent;
     request_hdr->payload_length = rspDataLength;
 
     rtLog_Debug("SendMessage topic=%s expression...", request_hdr->topic);
@@ -163,7 +163,7 @@ _rtdirect_send_reply_to_client(rtConnectedClient* client, rtMessageHeader * requ
     struct msghdr send_hdr = {NULL, 0, send_vec, 2, NULL, 0, 0};
     do
     {
-      bytes_sent = sendmsg(client->fd, &send_hdr, MSG_NOSIGNAL);
+      bytes_sent = rtSocket_SendAll(client->fd, &send_hdr, MSG_NOSIGNAL);
       if (bytes_sent == -1)
       {
         if (errno == EBADF)
@@ -527,7 +527,7 @@ rtRouteDirect_SendMessage(const rtPrivateClientInfo* pClient, uint8_t const* pIn
 {
     rtError ret = RT_OK;
     rtMessageHeader new_header;
-    ssize_t bytes_sent;
+    int bytes_sent;
 
     if (pClient && pInBuff && (inLength > 0))
     {
@@ -558,7 +558,7 @@ rtRouteDirect_SendMessage(const rtPrivateClientInfo* pClient, uint8_t const* pIn
         struct msghdr send_hdr = {NULL, 0, send_vec, 2, NULL, 0, 0};
         do
         {
-          bytes_sent = sendmsg(pClient->clientFD, &send_hdr, MSG_NOSIGNAL);
+          bytes_sent = rtSocket_SendAll(pClient->clientFD, &send_hdr, MSG_NOSIGNAL);
           if (bytes_sent == -1)
           {
             if (errno == EBADF)
diff --git a/src/rtmessage/rtrouted.c b/src/rtmessage/rtrouted.c
index 0d1264b..f77873c 100644
--- a/src/rtmessage/rtrouted.c
+++ b/src/rtmessage/rtrouted.c
@@ -478,7 +478,7 @@ static rtError
 rtRouted_SendMessage(rtMessageHeader * request_hdr, rtMessage message, rtConnectedClient* skipClient)
 {
   rtError ret = RT_OK;
-  ssize_t bytes_sent;
+  int bytes_sent;
   uint8_t* buffer = NULL;
   uint32_t size;
   rtConnectedClient * client = NULL;
@@ -514,7 +514,7 @@ rtRouted_SendMessage(rtMessageHeader * request_hdr, rtMessage message, rtConnect
           struct msghdr send_hdr = {NULL, 0, send_vec, 2, NULL, 0, 0};
           do
           {
-            bytes_sent = sendmsg(client->fd, &send_hdr, MSG_NOSIGNAL);
+            bytes_sent = rtSocket_SendAll(client->fd, &send_hdr, MSG_NOSIGNAL);
             if (bytes_sent == -1)
             {
               if (errno == EBADF)
@@ -613,7 +613,7 @@ rtError rtRouted_TrafficMonitorLog(rtConnectedClient* sender, rtMessageHeader* h
 static rtError
 rtRouted_ForwardMessage(rtConnectedClient* sender, rtMessageHeader* hdr, uint8_t const* buff, int n, rtSubscription* subscription)
 {
-  ssize_t bytes_sent;
+  int bytes_sent;
 
   (void) sender;
 
@@ -701,7 +701,7 @@ rtRouted_ForwardMessage(rtConnectedClient* sender, rtMessageHeader* hdr, uint8_t
   struct iovec send_vec[] = {{subscription->client->send_buffer, new_header.header_length}, {(void *)buff, (size_t)n}};
   struct msghdr send_hdr = {NULL, 0, send_vec, 2, NULL, 0, 0};
 
-  bytes_sent = sendmsg(subscription->client->fd, &send_hdr, MSG_NOSIGNAL);
+  bytes_sent = rtSocket_SendAll(subscription->client->fd, &send_hdr, MSG_NOSIGNAL);
   if (bytes_sent == -1)
   {
     if (errno == EBADF)
-- 
2.43.0


From 55442c1d4004c4c5193cfe19b1cfbc58fff590db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:11 +0000
Subject: [PATCH 40/46] fix: the trace context of a method answered later
 stayed with the thread that had served it

---
 src/core/rbuscore.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/rbuscore.c b/src/core/rbuscore.c
index 6255b33..dc5e39b 100644
--- a/src/core/rbuscore.c
+++ b/src/core/rbuscore.c
@@ -506,7 +506,10 @@ static void dispatch_method_call(rbusMessage msg, const rtMessageHeader *hdr, se
     {
         unlock();
         if(obj->callback(hdr->topic, method_name, msg, obj->data, &response, hdr) == RBUSCORE_SUCCESS_ASYNC) //FIXME: potential for race
+        {
+            rbus_clearOpenTelemetryContext();
             return;/*provider will send response async later on*/
+        }
     }
     /* Clear the context for next method */
     rbus_clearOpenTelemetryContext();
-- 
2.43.0


From a95a2d25cfdb542a403e300110d906f858601fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:48 +0000
Subject: [PATCH 41/46] fix: discovering the components of several elements
 went wrong unless each had as many as the first

---
 src/core/rbuscore.c | 62 ++++++++++++++++-----------------------------
 1 file changed, 22 insertions(+), 40 deletions(-)

diff --git a/src/core/rbuscore.c b/src/core/rbuscore.c
index dc5e39b..c9dd65f 100644
--- a/src/core/rbuscore.c
+++ b/src/core/rbuscore.c
@@ -2183,53 +2183,35 @@ rbusCoreError_t rbus_discoverElementsObjects(int numElements, const char** eleme
         if((RT_OK == rtMessage_GetInt32(msg, RTM_DISCOVERY_RESULT, &result)) && (RT_OK == result))
         {
             int i;
+            int numComponents = 0;
 
-            for(i = 0; i < numElements && ret == RBUSCORE_SUCCESS; ++i)
+            /*the items are the components of each element in turn; there are none if no element was found*/
+            if(rtMessage_GetArrayLength(msg, RTM_DISCOVERY_ITEMS, &numComponents) == RT_OK && numComponents > 0)
+            {
+                array_ptr = (char **)rt_try_malloc(numComponents * sizeof(char *));
+                if (!array_ptr)
+                {
+                    RBUSCORELOG_ERROR("Memory allocation failure");
+                    ret = RBUSCORE_ERROR_GENERAL;
+                }
+            }
+
+            for(i = 0; i < numComponents && ret == RBUSCORE_SUCCESS; ++i)
             {
-                int numComponents = 0;
                 const char* component = NULL;
 
-                if(rtMessage_GetInt32(msg, RTM_DISCOVERY_COUNT, &numComponents) == RT_OK)
+                if (RT_OK != rtMessage_GetStringItem(msg, RTM_DISCOVERY_ITEMS, i, &component))
                 {
-                    char **next = NULL;
-                    if(numComponents)
-                    {
-                        if(!array_ptr)
-                            next = (char **)rt_try_malloc(numComponents * sizeof(char *));
-                        else
-                            next = (char **)rt_try_realloc(array_ptr, (array_count + numComponents) * sizeof(char *));
-                        if (!next)
-                        {
-                            RBUSCORELOG_ERROR("Memory allocation failure");
-                            ret = RBUSCORE_ERROR_GENERAL;
-                            break;
-                        }
-                        array_ptr = next;
-                        for (int j = 0; j < numComponents; j++)
-                        {
-                            if (RT_OK != rtMessage_GetStringItem(msg, RTM_DISCOVERY_ITEMS, array_count, &component))
-                            {
-                                RBUSCORELOG_ERROR("Read item failure");
-                                ret = RBUSCORE_ERROR_GENERAL;
-                                break;
-                            }
-                            if(component[0]) /*rtrouted will put a 0 len string if no route found*/
-                            {
-                                if (NULL == (array_ptr[array_count++] = strndup(component, MAX_OBJECT_NAME_LENGTH)))
-                                {
-                                    RBUSCORELOG_ERROR("Memory allocation failure");
-                                    ret = RBUSCORE_ERROR_GENERAL;
-                                    break;
-                                }
-                            }
-                        }
-                    }
+                    RBUSCORELOG_ERROR("Read item failure");
+                    ret = RBUSCORE_ERROR_GENERAL;
                 }
-                else
+                else if(component[0]) /*rtrouted will put a 0 len string if no route found*/
                 {
-                    RBUSCORELOG_ERROR("rbus_discoverElementsObjects: failed at %s", elements[i]);
-                    ret = RBUSCORE_ERROR_GENERAL;
-                    break;
+                    if (NULL == (array_ptr[array_count++] = strndup(component, MAX_OBJECT_NAME_LENGTH)))
+                    {
+                        RBUSCORELOG_ERROR("Memory allocation failure");
+                        ret = RBUSCORE_ERROR_GENERAL;
+                    }
                 }
             }
         }
-- 
2.43.0


From 154e9b77c9a18059312cb55b2b16b7dd69551f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:34 +0000
Subject: [PATCH 42/46] fix: listing elements or rows while another thread
 added or removed some could corrupt the answer

---
 src/rbus/rbus.c         | 14 +++++++++++++-
 src/rbus/rbus_element.c | 10 ++++++++++
 src/rbus/rbus_element.h |  2 ++
 3 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 77e0fac..cea877b 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -2286,6 +2286,9 @@ static void _get_parameter_names_handler (rbusHandle_t handle, rbusMessage reque
             ELM_PRIVATE_UNLOCK(el);
         }
 
+        /*no row may come or go between counting and listing*/
+        elementsLock();
+
         child = el->child;
 
         while(child)
@@ -2311,6 +2314,8 @@ static void _get_parameter_names_handler (rbusHandle_t handle, rbusMessage reque
             child = child->nextSibling;
         }
 
+        elementsUnlock();
+
         return;
     }
 
@@ -2320,13 +2325,20 @@ static void _get_parameter_names_handler (rbusHandle_t handle, rbusMessage reque
 
         rbusMessage_SetInt32(*response, RBUS_ERROR_SUCCESS);
 
-        _get_parameter_names_recurse(handle, el, &count, NULL, requestedDepth, 0, true);
+        _get_parameter_names_recurse(handle, el, NULL, NULL, requestedDepth, 0, true);/*only syncs the tables*/
+
+        /*no element may come or go between counting and listing*/
+        elementsLock();
+
+        _get_parameter_names_recurse(handle, el, &count, NULL, requestedDepth, 0, false);
 
         RBUSLOG_DEBUG("found %d elements", count);
 
         rbusMessage_SetInt32(*response, (int)count);
 
         _get_parameter_names_recurse(handle, el, NULL, *response, requestedDepth, 0, false);
+
+        elementsUnlock();
     }
     #if 0 //TODO-finish
     else /*if table with getHandler*/
diff --git a/src/rbus/rbus_element.c b/src/rbus/rbus_element.c
index c084a53..790503d 100644
--- a/src/rbus/rbus_element.c
+++ b/src/rbus/rbus_element.c
@@ -105,6 +105,16 @@ static void destroyElementNode(elementNode* node)
     free(node);
 }
 
+void elementsLock(void)
+{
+    LOCK();
+}
+
+void elementsUnlock(void)
+{
+    UNLOCK();
+}
+
 void elementsBeginUse(void)
 {
     ERROR_CHECK(pthread_mutex_lock(&use_mutex));
diff --git a/src/rbus/rbus_element.h b/src/rbus/rbus_element.h
index 5514bb0..59c693c 100644
--- a/src/rbus/rbus_element.h
+++ b/src/rbus/rbus_element.h
@@ -80,6 +80,8 @@ elementNode* getEmptyElementNode(void);
 void freeElementNode(elementNode* node);
 void elementsBeginUse(void); /* the nodes of the tree are not freed until elementsEndUse */
 void elementsEndUse(void);
+void elementsLock(void); /* the tree does not change until elementsUnlock */
+void elementsUnlock(void);
 elementNode* insertElement(elementNode* root, rbusDataElement_t* elem);
 void removeElement(elementNode* element);
 elementNode* retrieveElement(elementNode* root, const char* name);
-- 
2.43.0


From 9ff8e567a9de58b6d8142a7d34d002bc4c3746ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:32 +0000
Subject: [PATCH 43/46] fix: a date compared equal to any other, as did 64 bit
 integers that differ only beyond 53 bits; bytes were compared past the end of
 the shorter

---
 src/rbus/rbus_value.c | 59 +++++++++++++++++++++++++++++--------------
 1 file changed, 40 insertions(+), 19 deletions(-)

diff --git a/src/rbus/rbus_value.c b/src/rbus/rbus_value.c
index d323a22..55cb0f5 100644
--- a/src/rbus/rbus_value.c
+++ b/src/rbus/rbus_value.c
@@ -902,6 +902,19 @@ static double rbusValue_CoerceNumericToDouble(rbusValue_t v)
     }
 }
 
+/*the value as a 64 bit two's complement integer, whose order is that of the values if both are negative or neither is*/
+static uint64_t rbusValue_CoerceIntegerToUInt64(rbusValue_t v, bool* negative)
+{
+    int64_t i64;
+
+    *negative = false;
+    if(v->type == RBUS_UINT64)
+        return rbusValue_GetUInt64(v);
+    i64 = v->type == RBUS_INT64 ? rbusValue_GetInt64(v) : (int64_t)rbusValue_CoerceNumericToDouble(v);
+    *negative = i64 < 0;
+    return (uint64_t)i64;
+}
+
 int rbusValue_Compare(rbusValue_t v1, rbusValue_t v2)
 {
     if(v1 == v2)
@@ -910,6 +923,20 @@ int rbusValue_Compare(rbusValue_t v1, rbusValue_t v2)
     if((!v1)||(!v2))
         return -1;
 
+    /*a double cannot tell all 64 bit integers apart*/
+    if(v1->type < RBUS_SINGLE && v2->type < RBUS_SINGLE)
+    {
+        bool neg1, neg2;
+        uint64_t u1 = rbusValue_CoerceIntegerToUInt64(v1, &neg1);
+        uint64_t u2 = rbusValue_CoerceIntegerToUInt64(v2, &neg2);
+
+        if(neg1 != neg2)
+            return neg1 ? -1 : 1;
+        if(u1 == u2)
+            return 0;
+        return u1 < u2 ? -1 : 1;
+    }
+
     /*compare integral values being type insensitive*/
     if(v1->type <= RBUS_DOUBLE && v2->type <= RBUS_DOUBLE)
     {
@@ -940,7 +967,8 @@ int rbusValue_Compare(rbusValue_t v1, rbusValue_t v2)
     }
     case RBUS_BYTES:
     {
-        int c = memcmp(v1->d.bytes->data, v2->d.bytes->data, v1->d.bytes->posWrite);
+        int c = memcmp(v1->d.bytes->data, v2->d.bytes->data,
+                       v1->d.bytes->posWrite < v2->d.bytes->posWrite ? v1->d.bytes->posWrite : v2->d.bytes->posWrite);
         if(v1->d.bytes->posWrite < v2->d.bytes->posWrite && c == 0)
             c = -1;
         else if(v1->d.bytes->posWrite > v2->d.bytes->posWrite && c == 0)
@@ -949,33 +977,26 @@ int rbusValue_Compare(rbusValue_t v1, rbusValue_t v2)
     }
     case RBUS_DATETIME:
     {
-        if(memcmp(rbusValue_GetTime(v1), rbusValue_GetTime(v2), sizeof(rbusDateTime_t)))
+        if(memcmp(rbusValue_GetTime(v1), rbusValue_GetTime(v2), sizeof(rbusDateTime_t)) == 0)
             return 0;
 
         /*apply timezone and diff the times*/
         rbusDateTime_t dt1 = *rbusValue_GetTime(v1);
         rbusDateTime_t dt2 = *rbusValue_GetTime(v2);
 
-        dt1.m_time.tm_hour += (dt1.m_tz.m_isWest ? dt1.m_tz.m_tzhour * -1 : dt1.m_tz.m_tzhour);
-        dt1.m_time.tm_min += (dt1.m_tz.m_isWest ? dt1.m_tz.m_tzmin * -1 : dt1.m_tz.m_tzmin);
-        if(dt1.m_time.tm_min < 0)
-            dt1.m_time.tm_min += 60;
-        if(dt1.m_time.tm_min >= 60)
-            dt1.m_time.tm_min -= 60;
-
-        dt2.m_time.tm_hour += (dt2.m_tz.m_isWest ? dt2.m_tz.m_tzhour * -1 : dt2.m_tz.m_tzhour);
-        dt2.m_time.tm_min += (dt2.m_tz.m_isWest ? dt2.m_tz.m_tzmin * -1 : dt2.m_tz.m_tzmin);
-        if(dt2.m_time.tm_min < 0)
-            dt2.m_time.tm_min += 60;
-        if(dt2.m_time.tm_min >= 60)
-            dt2.m_time.tm_min -= 60;
-
-        struct tm t1m, t2m;
+        /*what is out of range then, timegm carries over*/
+        dt1.m_time.tm_hour += (dt1.m_tz.m_isWest ? dt1.m_tz.m_tzhour : dt1.m_tz.m_tzhour * -1);
+        dt1.m_time.tm_min += (dt1.m_tz.m_isWest ? dt1.m_tz.m_tzmin : dt1.m_tz.m_tzmin * -1);
+
+        dt2.m_time.tm_hour += (dt2.m_tz.m_isWest ? dt2.m_tz.m_tzhour : dt2.m_tz.m_tzhour * -1);
+        dt2.m_time.tm_min += (dt2.m_tz.m_isWest ? dt2.m_tz.m_tzmin : dt2.m_tz.m_tzmin * -1);
+
+        struct tm t1m = {0}, t2m = {0};
         rbusValue_UnMarshallRBUStoTM(&t1m, &dt1);
         rbusValue_UnMarshallRBUStoTM(&t2m, &dt2);
 
-        time_t t1 = mktime(&t1m);
-        time_t t2 = mktime(&t2m);
+        time_t t1 = timegm(&t1m);
+        time_t t2 = timegm(&t2m);
         double diffSecs = difftime(t1, t2);
 
         if(diffSecs == 0)
-- 
2.43.0


From 2210f8133f9d07bad02ea7688df6974a5f616acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:22 +0000
Subject: [PATCH 44/46] fix: a value-change event named as author of a change
 the last component that had ever set the value, though the provider changed
 it

---
 src/rbus/rbus.c             | 3 ++-
 src/rbus/rbus_element.c     | 9 ++++-----
 src/rbus/rbus_element.h     | 2 +-
 src/rbus/rbus_valuechange.c | 9 +++++++--
 4 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index cea877b..45ffb71 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -1610,6 +1610,8 @@ static void _set_callback_handler (rbusHandle_t handle, rbusMessage request, rbu
 
                         ELM_PRIVATE_LOCK(el);
                         rc = el->cbTable.setHandler(handle, pProperties[loopCnt], &opts);
+                        if (rc == RBUS_ERROR_SUCCESS)
+                            setPropertyChangeComponent(el, pCompName);
                         ELM_PRIVATE_UNLOCK(el);
                         if (rc != RBUS_ERROR_SUCCESS)
                         {
@@ -1621,7 +1623,6 @@ static void _set_callback_handler (rbusHandle_t handle, rbusMessage request, rbu
                         }
                         else
                         {
-                            setPropertyChangeComponent(el, pCompName);
                             /* ======== < Old values backup >============= */
                             if (currentData)
                             {
diff --git a/src/rbus/rbus_element.c b/src/rbus/rbus_element.c
index 790503d..36915bd 100644
--- a/src/rbus/rbus_element.c
+++ b/src/rbus/rbus_element.c
@@ -1238,14 +1238,13 @@ void setPropertyChangeComponent(elementNode* node, char const* componentName)
     UNLOCK();
 }
 
-/* The component that made the last change: if none is known, or the known one is the provider (selfName) and longer ago than
-   period milliseconds, then the provider has changed the value just now. */
-char* getPropertyChangeComponent(elementNode* node, char const* selfName, int period)
+/* The component that made the change which came after the time since: if none is known to have made one since then, it was the
+   provider (selfName), whose own changes are not told otherwise. */
+char* getPropertyChangeComponent(elementNode* node, char const* selfName, rtTime_t const* since)
 {
     char* comp;
     LOCK();
-    if(node->changeComp == NULL ||
-       (rtTime_Elapsed(&node->changeTime, NULL) >= period && strcmp(selfName, node->changeComp) == 0))
+    if(node->changeComp == NULL || rtTime_Compare(&node->changeTime, since) < 0)
     {
         setPropertyChangeComponent(node, selfName);
     }
diff --git a/src/rbus/rbus_element.h b/src/rbus/rbus_element.h
index 59c693c..c299be9 100644
--- a/src/rbus/rbus_element.h
+++ b/src/rbus/rbus_element.h
@@ -98,7 +98,7 @@ elementNode* instantiateTableRow(elementNode* tableNode, uint32_t instNum, char
 void deleteTableRow(elementNode* rowNode);
 void getPropertyInstanceNames(elementNode* root, char const* query, rtVector propNameList);
 void setPropertyChangeComponent(elementNode* node, char const* componentName);
-char* getPropertyChangeComponent(elementNode* node, char const* selfName, int period);
+char* getPropertyChangeComponent(elementNode* node, char const* selfName, rtTime_t const* since);
 
 #ifdef __cplusplus
 }
diff --git a/src/rbus/rbus_valuechange.c b/src/rbus/rbus_valuechange.c
index b5c7deb..9d2c0ac 100644
--- a/src/rbus/rbus_valuechange.c
+++ b/src/rbus/rbus_valuechange.c
@@ -66,6 +66,7 @@ typedef struct ValueChangeRecord
     rbusHandle_t handle;    //needed when calling rbus_getHandler and rbusEvent_Publish
     elementNode const* node;    //used to call the rbus_getHandler is contains
     rbusProperty_t property;    //the parameter with value that gets cached
+    rtTime_t polled;        //just before that value was read
     int refs;
     bool removed;           //not in params any more
 } ValueChangeRecord;
@@ -158,6 +159,7 @@ static void rbusValueChange_poll(ValueChangeRecord* rec)
     rbusProperty_t property;
     rbusValue_t newVal, oldVal;
     int result;
+    rtTime_t now;
 
     rbusProperty_Init(&property,rbusProperty_GetName(rec->property), NULL);
 
@@ -166,6 +168,7 @@ static void rbusValueChange_poll(ValueChangeRecord* rec)
     opts.requestingComponent = "valueChangePollThread";
 
     ELM_PRIVATE_LOCK(rec->node);
+    rtTime_Now(&now);
     result = rec->node->cbTable.getHandler(rec->handle, property, &opts);
     ELM_PRIVATE_UNLOCK(rec->node);
 
@@ -196,10 +199,10 @@ static void rbusValueChange_poll(ValueChangeRecord* rec)
            The source of a value-change could be an external component calling rbus_set or the provider internally updating
            the value.  changeComp/changeTime are updated through the rbus_set path, but not through the provider internal path.
            We must deduce if the provider has updated the value and reflect that change to the changeComp/changeTime, right here.
-           If we don't have a changeComp or we do but the changeTime is older then the current polling period,
+           If we don't have a changeComp or we do but the changeTime is older than our last reading of the value,
            then we know it was the provider who updated the value we are now detecting.
         */
-        byComp = getPropertyChangeComponent((elementNode*)rec->node, rec->handle->componentName, RBUS_VALUECHANGE_PERIOD);
+        byComp = getPropertyChangeComponent((elementNode*)rec->node, rec->handle->componentName, &rec->polled);
 
         rbusObject_Init(&data, NULL);
         rbusObject_SetValue(data, "value", newVal);
@@ -237,6 +240,7 @@ static void rbusValueChange_poll(ValueChangeRecord* rec)
     {
         RBUSLOG_DEBUG("value change not detected for %s", rbusProperty_GetName(rec->property));
     }
+    rec->polled = now;
     rbusProperty_Release(property);
 }
 
@@ -354,6 +358,7 @@ void rbusValueChange_AddPropertyNode(rbusHandle_t handle, elementNode* propNode)
         /*get and cache the current value
           the polling thread will periodically re-get and compare to detect value changes*/
         ELM_PRIVATE_LOCK(propNode);
+        rtTime_Now(&rec->polled);
         int result = propNode->cbTable.getHandler(handle, rec->property, &opts);
         ELM_PRIVATE_UNLOCK(propNode);
 
-- 
2.43.0


From 5d6a0e844048b2153705beaa7fd0fa63ae00a21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:25 +0000
Subject: [PATCH 45/46] fix: getting a partial path over several providers
 returned a released property when the first had no values, and could report
 success with the result unset

---
 src/rbus/rbus.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 45ffb71..7d9ede0 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -3705,6 +3705,10 @@ rbusError_t rbus_getExt(rbusHandle_t handle, int paramCount, char const** pParam
     if (handleInfo->m_handleType != RBUS_HWDL_TYPE_REGULAR)
         return RBUS_ERROR_INVALID_HANDLE;
 
+    /* Initialize */
+    *retProperties = NULL;
+    *numValues = 0;
+
     if ((1 == paramCount))
     {
         if (!_is_wildcard_query(pParamNames[0]))
@@ -3712,10 +3716,6 @@ rbusError_t rbus_getExt(rbusHandle_t handle, int paramCount, char const** pParam
             rbusProperty_t outputVals = NULL;
             rbusValue_t getVal = NULL;
 
-            /* Initialize */
-            *retProperties = NULL;
-            *numValues = 0;
-
             /*Do get the single param */
             errorcode = rbus_get(handle, pParamNames[0], &getVal);
             if(RBUS_ERROR_SUCCESS == errorcode)
@@ -3802,12 +3802,15 @@ rbusError_t rbus_getExt(rbusHandle_t handle, int paramCount, char const** pParam
                                         }
                                         else
                                         {
+                                            /* the caller owns the first property */
                                             last = tmpProperties;
                                             *retProperties = last;
+                                            tmpProperties = NULL;
                                         }
                                     }
                                 }
-                                rbusProperty_Release(tmpProperties);
+                                if (tmpProperties)
+                                    rbusProperty_Release(tmpProperties);
                             }
                         }
                         if (errorcode != RBUS_ERROR_SUCCESS)
-- 
2.43.0


From 6254bdf8cfd88d1c12aa5673e0db79397c9f65ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:19 +0000
Subject: [PATCH 46/46] fix: a get of several properties told each provider
 that the provider itself was asking

---
 src/rbus/rbus.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 7d9ede0..3c1a20b 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -3908,7 +3908,7 @@ rbusError_t rbus_getExt(rbusHandle_t handle, int paramCount, char const** pParam
                 if(componentName)
                 {
                     rbusMessage_Init(&request);
-                    rbusMessage_SetString(request, componentName);
+                    rbusMessage_SetString(request, handleInfo->componentName);
                     rbusMessage_SetInt32(request, batchCount);
 
                     RBUSLOG_DEBUG("batchCount %d", batchCount);
-- 
2.43.0

