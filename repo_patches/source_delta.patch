From 3c5d578fd5ccb7208c4212e74afd3c34f94d8c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:05 +0000
Subject: [PATCH 01/63] fix: set FIN on the last frame when a message is a
 multiple of the frame size

---
 include/nbdl/websocket/detail/message_sender.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/nbdl/websocket/detail/message_sender.hpp b/include/nbdl/websocket/detail/message_sender.hpp
index c1a47b3..134066c 100644
--- a/include/nbdl/websocket/detail/message_sender.hpp
+++ b/include/nbdl/websocket/detail/message_sender.hpp
@@ -138,11 +138,14 @@ namespace nbdl::websocket::detail
   void message_sender<Payload, MaxFrameSize>::
   send_message_impl(Resolver& resolver, PayloadBegin begin, PayloadEnd end)
   {
-    auto frag_end = std::next(begin, MaxFrameSize::value);
+    auto frag_end = end;
 
-    if (frag_end > end)
+    if (static_cast<std::size_t>(std::distance(begin, end)) > max_frame_size)
+    {
+      frag_end = std::next(begin, max_frame_size);
+    }
+    else
     {
-      frag_end = end;
       data.apply_fin_bit();
     }
 
-- 
2.43.0


From e756fc215a006ae728a9b9108419f9f2bf814063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:04 +0000
Subject: [PATCH 02/63] fix: decode 64 bit frame lengths without shifting an
 int out of range

---
 include/nbdl/websocket/detail/message_reader.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nbdl/websocket/detail/message_reader.hpp b/include/nbdl/websocket/detail/message_reader.hpp
index 03a3c3d..2a3cc0b 100644
--- a/include/nbdl/websocket/detail/message_reader.hpp
+++ b/include/nbdl/websocket/detail/message_reader.hpp
@@ -145,7 +145,7 @@ namespace nbdl::websocket::detail
       // 16 bit
       for (int i = 0; i < 2; i++)
       {
-        length |= (x.extended_length_buf[1 - i] << (8 * i));
+        length |= (static_cast<uint64_t>(x.extended_length_buf[1 - i]) << (8 * i));
       }
     }
     else if(length_code == 127)
@@ -153,7 +153,7 @@ namespace nbdl::websocket::detail
       // 64 bit
       for (int i = 0; i < 8; i++)
       {
-        length |= (x.extended_length_buf[7 - i] << (8 * i));
+        length |= (static_cast<uint64_t>(x.extended_length_buf[7 - i]) << (8 * i));
       }
     }
     else
-- 
2.43.0


From 677bf4d307f80c3e60a64ad36bd43a9fcc258989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:04 +0000
Subject: [PATCH 03/63] fix: unmask only the bytes of the current fragment

---
 include/nbdl/websocket/detail/message_reader.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nbdl/websocket/detail/message_reader.hpp b/include/nbdl/websocket/detail/message_reader.hpp
index 2a3cc0b..9ba9ea0 100644
--- a/include/nbdl/websocket/detail/message_reader.hpp
+++ b/include/nbdl/websocket/detail/message_reader.hpp
@@ -175,7 +175,7 @@ namespace nbdl::websocket::detail
     asio::async_read(
       frame_ctx.socket
     , asio::buffer(&payload[current_offset], length)
-    , [&resolver, &payload, &frame_ctx, length](std::error_code error_code, std::size_t)
+    , [&resolver, &payload, &frame_ctx, length, current_offset](std::error_code error_code, std::size_t)
       {
         if (error_code)
         {
@@ -187,7 +187,7 @@ namespace nbdl::websocket::detail
           {
             for (int i = 0; i < length; i++)
             {
-              payload[i] ^= frame_ctx.mask_key[i % 4];
+              payload[current_offset + i] ^= frame_ctx.mask_key[i % 4];
             }
           }
           resolver.resolve(read_event::message);
-- 
2.43.0


From 3a6831465ce2c58da7e572c9c9d3f8b1a154daff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:04 +0000
Subject: [PATCH 04/63] fix: report a frame length that cannot be held as bad
 input instead of terminating

---
 .../nbdl/websocket/detail/message_reader.hpp  | 23 +++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/include/nbdl/websocket/detail/message_reader.hpp b/include/nbdl/websocket/detail/message_reader.hpp
index 9ba9ea0..4859924 100644
--- a/include/nbdl/websocket/detail/message_reader.hpp
+++ b/include/nbdl/websocket/detail/message_reader.hpp
@@ -14,6 +14,7 @@
 #include <boost/asio.hpp>
 #include <boost/hana/tuple.hpp>
 #include <cstdint>
+#include <limits>
 
 namespace nbdl::websocket::detail
 {
@@ -163,13 +164,25 @@ namespace nbdl::websocket::detail
     return length;
   }
 
+  // Lengths are held in an int
+  constexpr uint64_t max_payload_length = std::numeric_limits<int>::max();
+  // RFC 6455 5.5
+  constexpr uint64_t max_control_payload_length = 125;
+
   constexpr auto read_payload = [](auto& resolver, auto& frame_ctx)
   {
-    const int length = get_payload_length(frame_ctx);
     // we are appending a fixed length of bytes
     // to a possibly existing payload
     auto& payload = frame_ctx.payload;
     std::size_t current_offset = payload.size();
+
+    if (get_payload_length(frame_ctx) > max_payload_length - current_offset)
+    {
+      resolver.reject(read_event::bad_input);
+      return;
+    }
+
+    const int length = get_payload_length(frame_ctx);
     payload.resize(payload.size() + length);
 
     asio::async_read(
@@ -196,9 +209,15 @@ namespace nbdl::websocket::detail
     );
   };
 
-  // control frame 'close' can have a payload of <= 127 bytes
+  // control frame 'close' can have a payload of <= 125 bytes
   constexpr auto read_close_payload = [](auto& resolver, auto& frame_ctx)
   {
+    if (get_payload_length(frame_ctx) > max_control_payload_length)
+    {
+      resolver.reject(read_event::bad_input);
+      return;
+    }
+
     const int length = get_payload_length(frame_ctx);
 
     // destroy the existing payload
-- 
2.43.0


From 8ec71b7941e4c5fb01695dad38291f22dbf9ff8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:04 +0000
Subject: [PATCH 05/63] fix: consume the payload of ping and pong frames

---
 .../nbdl/websocket/detail/message_reader.hpp  | 44 ++++++++++++++++++-
 1 file changed, 42 insertions(+), 2 deletions(-)

diff --git a/include/nbdl/websocket/detail/message_reader.hpp b/include/nbdl/websocket/detail/message_reader.hpp
index 4859924..2745e4d 100644
--- a/include/nbdl/websocket/detail/message_reader.hpp
+++ b/include/nbdl/websocket/detail/message_reader.hpp
@@ -60,6 +60,9 @@ namespace nbdl::websocket::detail
     std::array<unsigned char, 8> extended_length_buf;
     std::array<unsigned char, 4> mask_key;
     Payload payload;
+    // payload of a ping or pong, which can arrive
+    // between the fragments of a message
+    Payload control_payload;
 
     frame_context_t(tcp::socket& s)
       : socket (s)
@@ -248,6 +251,43 @@ namespace nbdl::websocket::detail
     );
   };
 
+  constexpr auto read_control_payload = [](auto& resolver, auto& frame_ctx, auto event)
+  {
+    if (get_payload_length(frame_ctx) > max_control_payload_length)
+    {
+      resolver.reject(read_event::bad_input);
+      return;
+    }
+
+    const int length = get_payload_length(frame_ctx);
+
+    auto& payload = frame_ctx.control_payload;
+    payload.resize(length);
+
+    asio::async_read(
+      frame_ctx.socket
+    , asio::buffer(payload)
+    , [&resolver, &payload, &frame_ctx, length, event](std::error_code error_code, std::size_t)
+      {
+        if (error_code)
+        {
+          resolver.reject(error_code);
+        }
+        else
+        {
+          if (has_mask_key(frame_ctx))
+          {
+            for (int i = 0; i < length; i++)
+            {
+              payload[i] ^= frame_ctx.mask_key[i % 4];
+            }
+          }
+          resolver.resolve(event);
+        }
+      }
+    );
+  };
+
   // This kind of dispatching can be done only because
   // all of the branches are stateless.
   auto opcode_dispatch = nbdl::promise([](auto& resolver, auto& frame_ctx)
@@ -263,10 +303,10 @@ namespace nbdl::websocket::detail
         read_close_payload(resolver, frame_ctx);
         break;
       case 0x9: // PING
-        resolver.resolve(read_event::ping);
+        read_control_payload(resolver, frame_ctx, read_event::ping);
         break;
       case 0xA: // PONG
-        resolver.resolve(read_event::pong);
+        read_control_payload(resolver, frame_ctx, read_event::pong);
         break;
       default:
         resolver.reject(read_event::bad_input);
-- 
2.43.0


From b5a89bafe2f009bead35cae4ac7a836f6adce692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:24 +0000
Subject: [PATCH 06/63] fix: keep the send loop alive until its close frame is
 written

---
 include/nbdl/websocket/detail/endpoint_impl.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/nbdl/websocket/detail/endpoint_impl.hpp b/include/nbdl/websocket/detail/endpoint_impl.hpp
index 822a0e0..b651df3 100644
--- a/include/nbdl/websocket/detail/endpoint_impl.hpp
+++ b/include/nbdl/websocket/detail/endpoint_impl.hpp
@@ -214,9 +214,6 @@ namespace nbdl::websocket::detail
             nbdl::promise([&](auto& resolver_)
             {
               detail::send_close(resolver_, sender);
-              // keep is_send_queue_running == true to prevent more messages
-              // after sending the close frame
-              resolver.terminate();
             })
           , [&](auto& /*sender*/)
             {
@@ -224,6 +221,9 @@ namespace nbdl::websocket::detail
               {
                 call_handler(endpoint_event::close);
               }
+              // keep is_send_queue_running == true to prevent more messages
+              // after sending the close frame
+              resolver.terminate();
             }
           , nbdl::catch_([&](std::error_code error_code)
             {
-- 
2.43.0


From 2e573b65252a327c0a1d0b202300d17d991f91df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:34 +0000
Subject: [PATCH 07/63] fix: report the close event once when the peer's close
 frame arrives before ours is written

---
 include/nbdl/websocket/detail/endpoint_impl.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/nbdl/websocket/detail/endpoint_impl.hpp b/include/nbdl/websocket/detail/endpoint_impl.hpp
index b651df3..4990f9d 100644
--- a/include/nbdl/websocket/detail/endpoint_impl.hpp
+++ b/include/nbdl/websocket/detail/endpoint_impl.hpp
@@ -105,6 +105,7 @@ namespace nbdl::websocket::detail
       , is_started(false)
       , is_stopped(false)
       , is_close_received(false)
+      , is_close_sent(false)
     {
       init(self(), socket, handler);
     }
@@ -120,6 +121,7 @@ namespace nbdl::websocket::detail
     void start_send_queue();
     bool is_sending_close();
     void mark_is_close_received();
+    bool has_sent_close();
     auto make_reader_handler(Handler&);
 
     template <typename Key, typename ...Args>
@@ -141,6 +143,7 @@ namespace nbdl::websocket::detail
     bool is_started : 1;
     bool is_stopped : 1;
     bool is_close_received : 1;
+    bool is_close_sent : 1;
   };
 
   template <typename Queue, typename Handler, typename SendMessageImpl, typename Derived>
@@ -217,6 +220,7 @@ namespace nbdl::websocket::detail
             })
           , [&](auto& /*sender*/)
             {
+              is_close_sent = true;
               if (is_close_received)
               {
                 call_handler(endpoint_event::close);
@@ -298,6 +302,12 @@ namespace nbdl::websocket::detail
     is_close_received = true;
   }
 
+  template <typename Queue, typename Handler, typename SendMessageImpl, typename Derived>
+  bool endpoint_impl<Queue, Handler, SendMessageImpl, Derived>::has_sent_close()
+  {
+    return is_close_sent;
+  }
+
   template <typename Queue, typename Handler, typename SendMessageImpl, typename Derived>
   auto endpoint_impl<Queue, Handler, SendMessageImpl, Derived>::make_reader_handler(Handler&)
   {
@@ -315,11 +325,11 @@ namespace nbdl::websocket::detail
         (void(this));
         mark_is_close_received();
 
-        if (is_sending_close())
+        if (has_sent_close())
         {
           call_handler(endpoint_event::close);
         }
-        else
+        else if (not is_sending_close())
         {
           send_close();
         }
-- 
2.43.0


From ca5087aab93ceeb43eef01b40e37710730e27812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:34 +0000
Subject: [PATCH 08/63] fix: send a close frame that was requested before
 messaging started

---
 include/nbdl/websocket/detail/endpoint_impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nbdl/websocket/detail/endpoint_impl.hpp b/include/nbdl/websocket/detail/endpoint_impl.hpp
index 4990f9d..968ae0a 100644
--- a/include/nbdl/websocket/detail/endpoint_impl.hpp
+++ b/include/nbdl/websocket/detail/endpoint_impl.hpp
@@ -185,7 +185,7 @@ namespace nbdl::websocket::detail
 
       reader.keep_reading(this->shared_from_this());
 
-      if (send_queue.size() > 0)
+      if (send_queue.size() > 0 or is_sending_close())
       {
         start_send_queue();
       }
-- 
2.43.0


From 3781a4a6fbb689280cbefd1cf1af8ac8e2a4e431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:34 +0000
Subject: [PATCH 09/63] fix: answer a ping with a pong

---
 .../nbdl/websocket/detail/endpoint_impl.hpp   | 25 ++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/include/nbdl/websocket/detail/endpoint_impl.hpp b/include/nbdl/websocket/detail/endpoint_impl.hpp
index 968ae0a..b2810d2 100644
--- a/include/nbdl/websocket/detail/endpoint_impl.hpp
+++ b/include/nbdl/websocket/detail/endpoint_impl.hpp
@@ -49,6 +49,11 @@ namespace nbdl::websocket::detail
       return kind == control_frame_kind::CLOSE;
     }
 
+    bool is_pong()
+    {
+      return kind == control_frame_kind::PONG;
+    }
+
     template <typename X>
     void to_close(X&& x)
     {
@@ -106,6 +111,7 @@ namespace nbdl::websocket::detail
       , is_stopped(false)
       , is_close_received(false)
       , is_close_sent(false)
+      , is_sending_pong(false)
     {
       init(self(), socket, handler);
     }
@@ -144,6 +150,7 @@ namespace nbdl::websocket::detail
     bool is_stopped : 1;
     bool is_close_received : 1;
     bool is_close_sent : 1;
+    bool is_sending_pong : 1;
   };
 
   template <typename Queue, typename Handler, typename SendMessageImpl, typename Derived>
@@ -244,7 +251,14 @@ namespace nbdl::websocket::detail
     , nbdl::promise([this](auto& resolver)
       {
         (void(this));
-        if (send_queue.size() > 0)
+        if (pending_control_frame.is_pong())
+        {
+          sender.data.payload = std::move(pending_control_frame.payload);
+          pending_control_frame.kind = control_frame_kind::NONE;
+          is_sending_pong = true;
+          detail::send_pong(resolver, sender);
+        }
+        else if (send_queue.size() > 0)
         {
           sender.data.payload = send_queue.front();
           SendMessageImpl{}(resolver, sender);
@@ -258,7 +272,11 @@ namespace nbdl::websocket::detail
     , [this](auto&& ...)
       {
         (void(this));
-        if (send_queue.size() > 0)
+        if (is_sending_pong)
+        {
+          is_sending_pong = false;
+        }
+        else if (send_queue.size() > 0)
         {
           // pop after the message was sent without error
           send_queue.pop();
@@ -337,7 +355,8 @@ namespace nbdl::websocket::detail
     , hana::make_pair(read_event::ping, [this](auto, auto const& frame_ctx)
       {
         (void(this));
-        pending_control_frame.to_pong(std::move(frame_ctx.payload));
+        pending_control_frame.to_pong(frame_ctx.control_payload);
+        start_send_queue();
       })
     , hana::make_pair(read_event::pong, [](auto&& ...) { })
     , hana::make_pair(read_event::bad_input, [this](auto&& ...)
-- 
2.43.0


From b7abec0d418018a0825b350a03c806edf2dba358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:36 +0000
Subject: [PATCH 10/63] fix: keep the endpoint alive until its handshake has
 ended

---
 include/nbdl/websocket/client_endpoint.hpp    | 17 ++++++++++-------
 .../nbdl/websocket/detail/endpoint_impl.hpp   | 16 +++++++++++-----
 include/nbdl/websocket/server_endpoint.hpp    | 19 ++++++++++---------
 3 files changed, 31 insertions(+), 21 deletions(-)

diff --git a/include/nbdl/websocket/client_endpoint.hpp b/include/nbdl/websocket/client_endpoint.hpp
index 4b63e2c..d427938 100644
--- a/include/nbdl/websocket/client_endpoint.hpp
+++ b/include/nbdl/websocket/client_endpoint.hpp
@@ -40,31 +40,34 @@ namespace nbdl
                                                   , DecayedHandler
                                                   , SendMessageImpl>;
 
-      return std::make_shared<Impl>(
+      auto shared_endpoint = std::make_shared<Impl>(
         std::move(socket)
       , std::forward<Queue>(queue)
       , std::forward<Handler>(handler)
-      , [ origin = origin
+      );
+      shared_endpoint->init(
+        [ origin = origin
         , auth_token = auth_token
-        ](auto& self, auto& socket, auto& handler)
+        ](auto self, auto& socket, auto& handler)
         {
           nbdl::run_async(
             hana::make_tuple(
               websocket::detail::send_handshake_request(origin, auth_token)
             , websocket::detail::parse_handshake_response()
-            , [&](auto&&)
+            , [self, &handler](auto&&)
               {
-                handler[endpoint_event::ready](self);
+                handler[endpoint_event::ready](*self);
               }
-            , nbdl::catch_([&](auto&& error)
+            , nbdl::catch_([self, &handler](auto&& error)
               {
-                handler[hana::typeid_(error)](self, std::forward<decltype(error)>(error));
+                handler[hana::typeid_(error)](*self, std::forward<decltype(error)>(error));
               })
             )
           , socket
           );
         }
       );
+      return shared_endpoint;
     }
   };
 }
diff --git a/include/nbdl/websocket/detail/endpoint_impl.hpp b/include/nbdl/websocket/detail/endpoint_impl.hpp
index b2810d2..989175a 100644
--- a/include/nbdl/websocket/detail/endpoint_impl.hpp
+++ b/include/nbdl/websocket/detail/endpoint_impl.hpp
@@ -94,8 +94,8 @@ namespace nbdl::websocket::detail
       return static_cast<Derived&>(*this);
     }
 
-    template <typename Q, typename H, typename InitFn>
-    endpoint_impl(tcp::socket&& s, Q&& queue_, H&& handler_, InitFn&& init)
+    template <typename Q, typename H>
+    endpoint_impl(tcp::socket&& s, Q&& queue_, H&& handler_)
       : socket(std::move(s))
       , pending_control_frame()
       , handler(std::forward<H>(handler_))
@@ -112,12 +112,18 @@ namespace nbdl::websocket::detail
       , is_close_received(false)
       , is_close_sent(false)
       , is_sending_pong(false)
-    {
-      init(self(), socket, handler);
-    }
+    { }
 
     endpoint_impl(endpoint_impl const&) = delete;
 
+    // The handshake shares ownership so that the endpoint
+    // outlives its pending operations.
+    template <typename InitFn>
+    void init(InitFn&& init_fn)
+    {
+      init_fn(this->shared_from_this(), socket, handler);
+    }
+
     void send_message(Payload const&);
     void send_close();
     void start_messaging();
diff --git a/include/nbdl/websocket/server_endpoint.hpp b/include/nbdl/websocket/server_endpoint.hpp
index c3d234f..14c60b7 100644
--- a/include/nbdl/websocket/server_endpoint.hpp
+++ b/include/nbdl/websocket/server_endpoint.hpp
@@ -31,23 +31,23 @@ namespace nbdl
   {
     using tcp = asio::ip::tcp;
 
-    constexpr auto server_endpoint_init = [](auto& self, tcp::socket& socket, auto& handler)
+    constexpr auto server_endpoint_init = [](auto self, tcp::socket& socket, auto& handler)
     {
       nbdl::run_async(
         hana::make_tuple(
           websocket::detail::parse_handshake_request()
         , websocket::detail::send_handshake_response()
-        , [&](tcp::socket&, auto const& auth_token)
+        , [self, &handler](tcp::socket&, auto const& auth_token)
           {
-            handler[endpoint_event::ready](self, auth_token);
+            handler[endpoint_event::ready](*self, auth_token);
           }
-        , nbdl::catch_([&](hana::basic_type<event::bad_request_t>)
+        , nbdl::catch_([self, &handler](hana::basic_type<event::bad_request_t>)
           {
-            handler[event::bad_request](self);
+            handler[event::bad_request](*self);
           })
-        , nbdl::catch_([&](auto&& error)
+        , nbdl::catch_([self, &handler](auto&& error)
           {
-            handler[hana::typeid_(error)](self, std::forward<decltype(error)>(error));
+            handler[hana::typeid_(error)](*self, std::forward<decltype(error)>(error));
           })
         )
       , socket
@@ -70,12 +70,13 @@ namespace nbdl
                                                   , DecayedHandler
                                                   , SendMessageImpl>;
 
-      return std::make_shared<Impl>(
+      auto shared_endpoint = std::make_shared<Impl>(
         std::move(endpoint.socket)
       , std::forward<Queue>(queue)
       , std::forward<Handler>(handler)
-      , websocket::detail::server_endpoint_init
       );
+      shared_endpoint->init(websocket::detail::server_endpoint_init);
+      return shared_endpoint;
     }
   };
 }
-- 
2.43.0


From 08e8746214afdf083288624b196fc7297bc23c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:26 +0000
Subject: [PATCH 11/63] fix: report whether a delta changed a local_version

---
 include/nbdl/local_version.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nbdl/local_version.hpp b/include/nbdl/local_version.hpp
index 1e852e0..c239588 100644
--- a/include/nbdl/local_version.hpp
+++ b/include/nbdl/local_version.hpp
@@ -138,7 +138,7 @@ namespace nbdl
         // apply delta to store
         if (message::is_confirmed(m))
         {
-          apply_confirmed_delta(
+          return apply_confirmed_delta(
             store
           , message::get_uid(std::forward<Message>(m))
           , message::get_payload(std::forward<Message>(m))
@@ -146,7 +146,7 @@ namespace nbdl
         }
         else
         {
-          apply_local_delta(
+          return apply_local_delta(
             store
           , message::get_uid(std::forward<Message>(m))
           , message::get_payload(std::forward<Message>(m))
-- 
2.43.0


From 4c6f73862bd4269a2bb37c6399a3490c2f1b481a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:26 +0000
Subject: [PATCH 12/63] fix: forget the deltas that preceded a full payload of
 a local_version

---
 include/nbdl/local_version.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/nbdl/local_version.hpp b/include/nbdl/local_version.hpp
index c239588..28c882d 100644
--- a/include/nbdl/local_version.hpp
+++ b/include/nbdl/local_version.hpp
@@ -159,6 +159,9 @@ namespace nbdl
           !std::is_same<Payload, void>::value
         , "Store message must have a payload for this store."
         );
+
+        // The payload replaces everything that came before it
+        store.pending_delta = {};
         return nbdl::apply_action(
           store.value
         , message::get_payload(std::forward<Message>(m))
-- 
2.43.0


From 352b6fa477833a9b48000c6caed4b281c0fce9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:03 +0000
Subject: [PATCH 13/63] fix: read the private payload of a create message from
 its own slot

---
 include/nbdl/fwd/message.hpp | 2 +-
 include/nbdl/message.hpp     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nbdl/fwd/message.hpp b/include/nbdl/fwd/message.hpp
index 14ecf3a..9c7b09d 100644
--- a/include/nbdl/fwd/message.hpp
+++ b/include/nbdl/fwd/message.hpp
@@ -140,7 +140,7 @@ namespace nbdl::message
 
   template <typename Message>
   constexpr bool has_private_payload = !std::is_same<const no_impl,
-    decltype(get_uid_impl<std::decay_t<Message>>)>::value;
+    decltype(get_private_payload_impl<std::decay_t<Message>>)>::value;
 
   template <typename Message>
   constexpr bool is_path_normalizable = !std::is_same<const no_impl,
diff --git a/include/nbdl/message.hpp b/include/nbdl/message.hpp
index ed79f9b..0065ad6 100644
--- a/include/nbdl/message.hpp
+++ b/include/nbdl/message.hpp
@@ -97,7 +97,7 @@ namespace nbdl::message
   NBDL_DETAIL_MESSAGE_ACCESSOR_IMPL(upstream_create, get_path_impl, 0);
   NBDL_DETAIL_MESSAGE_OPTIONAL_ACCESSOR_IMPL(upstream_create, get_uid_impl, 1);
   NBDL_DETAIL_MESSAGE_ACCESSOR_IMPL(upstream_create, get_payload_impl, 2);
-  NBDL_DETAIL_MESSAGE_OPTIONAL_ACCESSOR_IMPL(upstream_create, get_private_payload_impl, 1);
+  NBDL_DETAIL_MESSAGE_OPTIONAL_ACCESSOR_IMPL(upstream_create, get_private_payload_impl, 3);
 
   template <typename ...T>
   constexpr auto get_channel_impl<upstream_create<T...>> = channel::upstream{};
-- 
2.43.0


From f27e5a337ac5869a32ee4d971b581d96411c3083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:03 +0000
Subject: [PATCH 14/63] fix: a downstream read has no is_confirmed slot

---
 include/nbdl/message.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/nbdl/message.hpp b/include/nbdl/message.hpp
index 0065ad6..9ef429a 100644
--- a/include/nbdl/message.hpp
+++ b/include/nbdl/message.hpp
@@ -314,7 +314,6 @@ namespace nbdl::message
   NBDL_DETAIL_MESSAGE_ACCESSOR_IMPL(downstream_read, get_path_impl, 0);
   NBDL_DETAIL_MESSAGE_OPTIONAL_ACCESSOR_IMPL(downstream_read, get_uid_impl, 1);
   NBDL_DETAIL_MESSAGE_ACCESSOR_IMPL(downstream_read, get_payload_impl, 2);
-  NBDL_DETAIL_MESSAGE_OPTIONAL_ACCESSOR_IMPL(downstream_read, is_confirmed_impl, 3);
 
   template <typename ...T>
   constexpr auto get_channel_impl<downstream_read<T...>> = channel::downstream{};
-- 
2.43.0


From ac1ee98475b09d5ebd4dd4fc9b7ec9c6012e75fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:25 +0000
Subject: [PATCH 15/63] fix: let map_store ask for a read of a path it does not
 hold

---
 include/nbdl/map_store.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/nbdl/map_store.hpp b/include/nbdl/map_store.hpp
index 7b28e80..85e8d40 100644
--- a/include/nbdl/map_store.hpp
+++ b/include/nbdl/map_store.hpp
@@ -187,7 +187,15 @@ namespace nbdl
     template <typename Store, typename Key, typename Fn>
     static constexpr void apply(Store&& s, Key&& k, Fn&& fn)
     {
-      nbdl::match(s.map, std::forward<Key>(k), std::forward<Fn>(fn));
+      auto itr = s.map.find(std::forward<Key>(k));
+      if (itr == s.map.end())
+      {
+        std::forward<Fn>(fn)(nbdl::trigger_read{});
+      }
+      else
+      {
+        nbdl::match(itr->second, std::forward<Fn>(fn));
+      }
     }
   };
 }
-- 
2.43.0


From 30eea6fede99f62d7b324bba740a2b9eb44744cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:25 +0000
Subject: [PATCH 16/63] fix: ask the store before a read is applied to it, or
 no read reaches a producer

---
 include/nbdl/context.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nbdl/context.hpp b/include/nbdl/context.hpp
index af59db8..f8689f5 100644
--- a/include/nbdl/context.hpp
+++ b/include/nbdl/context.hpp
@@ -161,7 +161,6 @@ namespace nbdl
       auto& store = stores[path_type];
       if constexpr(message::is_upstream<Message> && message::is_read<Message>)
       {
-        nbdl::apply_message(store, m);
         // send response message
         nbdl::match(store, message::get_path(m), hana::overload_linearly(
           [&](nbdl::trigger_read)
@@ -170,6 +169,7 @@ namespace nbdl
             // placeholder to prevent duplicate upstream
             // read requests and so any StateConsumer
             // gets a value
+            nbdl::apply_message(store, m);
             propagate_upstream(m);
           },
           [&](nbdl::unresolved)
-- 
2.43.0


From a32a558d0f22acbb44ea4221681fea81930dae70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:38 +0000
Subject: [PATCH 17/63] fix: let echo_producer answer a read with not_found

---
 include/nbdl/echo_producer.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/nbdl/echo_producer.hpp b/include/nbdl/echo_producer.hpp
index e383819..c54703e 100644
--- a/include/nbdl/echo_producer.hpp
+++ b/include/nbdl/echo_producer.hpp
@@ -12,6 +12,7 @@
 #include <nbdl/apply_message.hpp>
 #include <nbdl/entity.hpp>
 #include <nbdl/message.hpp>
+#include <nbdl/tags.hpp>
 
 namespace nbdl
 {
@@ -77,6 +78,14 @@ namespace nbdl
           )
         );
       }
+      else if constexpr(message::is_read<Message>)
+      {
+        // there is nothing to echo that the store does not hold already
+        nbdl::apply_message(
+          p.context
+        , message::to_downstream_read(m, nbdl::not_found{})
+        );
+      }
       else
       {
         nbdl::apply_message(
-- 
2.43.0


From 05048db4ea1176a71a98c5706fc9ed7a7eabcf1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:07 +0000
Subject: [PATCH 18/63] fix: destroy the value hold_lazy holds before it makes
 another

---
 include/nbdl/hold_lazy.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/nbdl/hold_lazy.hpp b/include/nbdl/hold_lazy.hpp
index b72c0c0..957204f 100644
--- a/include/nbdl/hold_lazy.hpp
+++ b/include/nbdl/hold_lazy.hpp
@@ -59,6 +59,12 @@ namespace nbdl
       template <typename Resolver, typename ...Xs>
       void operator()(Resolver& resolver, Xs&& ...xs) noexcept
       {
+        if (engaged)
+        {
+          // resolved again (ie in a loop)
+          engaged = false;
+          value.~T();
+        }
         new(std::addressof(value)) T(this->f(resolver, std::forward<Xs>(xs)...));
         engaged = true;
       }
-- 
2.43.0


From 001c2ac00d9166e0b84668bcf69171cf2a3a7661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:47 +0000
Subject: [PATCH 19/63] fix: encode bytes of a signed character type as the
 bytes they are

---
 include/nbdl/util/base64_encode.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/nbdl/util/base64_encode.hpp b/include/nbdl/util/base64_encode.hpp
index 3ac2568..19ac35e 100644
--- a/include/nbdl/util/base64_encode.hpp
+++ b/include/nbdl/util/base64_encode.hpp
@@ -61,9 +61,9 @@ namespace nbdl::util
       for (int i = 0; i < round_length; i += 3)
       {
         uint32_t const fragment =
-            buffer[i    ] << 24
-          | buffer[i + 1] << 16
-          | buffer[i + 2] << 8
+            static_cast<unsigned char>(buffer[i    ]) << 24
+          | static_cast<unsigned char>(buffer[i + 1]) << 16
+          | static_cast<unsigned char>(buffer[i + 2]) << 8
           ;
         base64_detail::encode_fragment(output_itr, fragment, 3);
       }
@@ -71,7 +71,7 @@ namespace nbdl::util
       uint32_t extras = 0;
       for (int i = 0; i < extra_length; i++)
       {
-        extras |= buffer[round_length + i] << (8 * (3 - i));
+        extras |= static_cast<unsigned char>(buffer[round_length + i]) << (8 * (3 - i));
       }
       base64_detail::encode_fragment(output_itr, extras, extra_length);
 
-- 
2.43.0


From 5174bbc46ad33dae3559106759dcf6a8ed5f5724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:47 +0000
Subject: [PATCH 20/63] fix: do not accept malformed base64 text because it
 decodes to nothing

---
 include/nbdl/util/base64_decode.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/nbdl/util/base64_decode.hpp b/include/nbdl/util/base64_decode.hpp
index 5e39a08..c8f2e9f 100644
--- a/include/nbdl/util/base64_decode.hpp
+++ b/include/nbdl/util/base64_decode.hpp
@@ -168,9 +168,8 @@ namespace nbdl::util
       using base64_detail::validate;
       using base64_detail::decode;
 
-      if (not prepare_output_buffer(output, target_decoded_length(input))) return false;
-      if (output.size() == 0) return true;
       if (not validate(input)) return false;
+      if (not prepare_output_buffer(output, target_decoded_length(input))) return false;
 
       return decode(std::forward<Input>(input), output);
     }
-- 
2.43.0


From dbbb519863cbea9e0da2e463aa53fe4944386777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:39 +0000
Subject: [PATCH 21/63] fix: reading a bool or a double from JSON compiles

---
 include/nbdl/binder/jsoncpp.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/nbdl/binder/jsoncpp.hpp b/include/nbdl/binder/jsoncpp.hpp
index 3e7e577..aaa0609 100644
--- a/include/nbdl/binder/jsoncpp.hpp
+++ b/include/nbdl/binder/jsoncpp.hpp
@@ -88,7 +88,10 @@ namespace nbdl { namespace binder { namespace jsoncpp
       void bind_member(T& field)
       {
         using T_ = std::remove_reference_t<T>;
-        if constexpr(std::is_integral_v<T_> && std::is_unsigned_v<T_>) {
+        if constexpr(std::is_same_v<T_, bool>) {
+          bind_(json_val, field);
+        }
+        else if constexpr(std::is_integral_v<T_> && std::is_unsigned_v<T_>) {
           bind_unsigned(json_val, field);
         }
         else if constexpr(std::is_integral_v<T_>) {
@@ -98,7 +101,7 @@ namespace nbdl { namespace binder { namespace jsoncpp
           bind_enum(json_val, field);
         }
         else {
-          bind_(json_val, std::forward<T>(field));
+          bind_(json_val, field);
         }
       }
 
-- 
2.43.0


From 3d044ed35b14e03a516f2628cb09e5a99b12cf9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:39 +0000
Subject: [PATCH 22/63] fix: write an empty container as the empty array it is
 read from

---
 include/nbdl/binder/jsoncpp.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/nbdl/binder/jsoncpp.hpp b/include/nbdl/binder/jsoncpp.hpp
index aaa0609..54c63be 100644
--- a/include/nbdl/binder/jsoncpp.hpp
+++ b/include/nbdl/binder/jsoncpp.hpp
@@ -216,6 +216,7 @@ namespace nbdl { namespace binder { namespace jsoncpp
       template <typename Container>
       void bind_container(Container const& c)
       {
+        json_val = Json::Value(Json::arrayValue);
         for (auto const& x : c)
         {
           Json::Value el;
-- 
2.43.0


From e113eb1d8ad4621bfb719087cb7fa800b5af90ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:39 +0000
Subject: [PATCH 23/63] fix: read all of a JSON string, also after a null
 character

---
 include/nbdl/binder/jsoncpp.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/nbdl/binder/jsoncpp.hpp b/include/nbdl/binder/jsoncpp.hpp
index 54c63be..926b752 100644
--- a/include/nbdl/binder/jsoncpp.hpp
+++ b/include/nbdl/binder/jsoncpp.hpp
@@ -134,7 +134,10 @@ namespace nbdl { namespace binder { namespace jsoncpp
       {
         if (!json_val.isString())
           throw std::runtime_error("JSON String expected");
-        field = String{json_val.asCString()};
+        char const* first;
+        char const* last;
+        json_val.getString(&first, &last);
+        field = String(first, last);
       }
 
       template<typename T>
-- 
2.43.0


From 49b115e5723faec055dc616825261baa37cabf8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:39 +0000
Subject: [PATCH 24/63] fix: reject a JSON string that does not decode to the
 buffer

---
 include/nbdl/binder/jsoncpp.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/nbdl/binder/jsoncpp.hpp b/include/nbdl/binder/jsoncpp.hpp
index 926b752..59f50ca 100644
--- a/include/nbdl/binder/jsoncpp.hpp
+++ b/include/nbdl/binder/jsoncpp.hpp
@@ -126,7 +126,8 @@ namespace nbdl { namespace binder { namespace jsoncpp
       {
         nbdl::string temp{};
         bind_string(temp);
-        nbdl::util::base64_decode(temp, b);
+        if (!nbdl::util::base64_decode(temp, b))
+          throw std::runtime_error("JSON String is not valid base64.");
       }
 
       template <typename String>
-- 
2.43.0


From 59f2e3e1cd52a8fa44db8027763d3f1e44bab1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:01 +0000
Subject: [PATCH 25/63] fix: reject a JSON variant whose type_id is no
 alternative

---
 include/nbdl/binder/jsoncpp.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/nbdl/binder/jsoncpp.hpp b/include/nbdl/binder/jsoncpp.hpp
index 59f50ca..b6c9c01 100644
--- a/include/nbdl/binder/jsoncpp.hpp
+++ b/include/nbdl/binder/jsoncpp.hpp
@@ -290,10 +290,14 @@ namespace nbdl { namespace binder { namespace jsoncpp
           [](auto&& binder, auto&& t)
             -> decltype((binder.get_variant_type_id(), void()))
           {
+            bool is_bound = false;
             nbdl::bind_variant(binder.get_variant_type_id(), std::forward<T>(t), [&](auto&& ...x)
             {
+              is_bound = true;
               binder.bind_sequence(std::forward<decltype(x)>(x)...);
             });
+            if (!is_bound)
+              throw std::runtime_error("Variant type_id is out of range.");
           },
           [](auto&& binder, auto&& t)
           {
-- 
2.43.0


From dc4bb1ccaacf8db047344c40de81389ad05b7fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:26 +0000
Subject: [PATCH 26/63] fix: read an enumerator that is negative from JSON

---
 include/nbdl/binder/jsoncpp.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/nbdl/binder/jsoncpp.hpp b/include/nbdl/binder/jsoncpp.hpp
index b6c9c01..74e6ddf 100644
--- a/include/nbdl/binder/jsoncpp.hpp
+++ b/include/nbdl/binder/jsoncpp.hpp
@@ -66,7 +66,10 @@ namespace nbdl { namespace binder { namespace jsoncpp
       void bind_enum(Json::Value const& obj, T& field) {
         if (!obj.isIntegral())
           throw std::runtime_error("JSON Integral expected");
-        field = static_cast<T>(obj.asUInt());
+        if constexpr(std::is_signed_v<std::underlying_type_t<T>>)
+          field = static_cast<T>(obj.asInt());
+        else
+          field = static_cast<T>(obj.asUInt());
       }
 
       void bind_(Json::Value const& obj, double& field)
-- 
2.43.0


From 0428caa40c404014899561c6edb7fca428860edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:47 +0000
Subject: [PATCH 27/63] fix: let the level of a system_message hold any number
 read into it

---
 include/nbdl/message_api.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nbdl/message_api.hpp b/include/nbdl/message_api.hpp
index fde5e2c..af872ae 100644
--- a/include/nbdl/message_api.hpp
+++ b/include/nbdl/message_api.hpp
@@ -20,7 +20,7 @@ namespace nbdl
   namespace mp11 = boost::mp11;
 
   struct system_message {
-    enum {
+    enum : unsigned {
       ERROR, WARNING, STATUS, DEBUG, DEV_DEBUG
     } level;
     std::string value;
-- 
2.43.0


From 2d327d7c872de71c4568d4a9538df1610c1b055f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:57 +0000
Subject: [PATCH 28/63] fix: bind the variant of a variant_holder

---
 include/nbdl/variant_holder.hpp | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/include/nbdl/variant_holder.hpp b/include/nbdl/variant_holder.hpp
index f1b0cb6..f99c91f 100644
--- a/include/nbdl/variant_holder.hpp
+++ b/include/nbdl/variant_holder.hpp
@@ -52,22 +52,14 @@ template <>
 struct bind_variant_impl<nbdl::variant_holder_tag> {
   template <typename VariantHolder, typename BindFn>
   static void apply(int type_id, VariantHolder&& v, BindFn&& f) {
-    using VariantTy = std::remove_cvref_t<VariantHolder>;
-    constexpr size_t variant_size = std::variant_size_v<VariantTy>;
-
-    mp11::mp_with_index<variant_size + 1>(type_id, [&](auto index) {
-      using AltType = std::variant_alternative_t<index(), VariantTy>;
-      AltType value{};
-      std::forward<BindFn>(f)(type_id, value);
-      v = value;
-    });
+    bind_variant_impl<nbdl::variant_tag>::apply(type_id, v.value,
+                                                std::forward<BindFn>(f));
   }
 
   template <typename VariantHolder, typename BindFn>
-  static void apply(VariantHolder&& v, BindFn&& f) {
-    v.match([&](auto const& value) {
-      f(v.index(), value);
-    });
+  static void apply(VariantHolder const& v, BindFn&& f) {
+    bind_variant_impl<nbdl::variant_tag>::apply(v.value,
+                                                std::forward<BindFn>(f));
   }
 };
 }  // namespace nbdl
-- 
2.43.0


From 875db13803c8b8e86208072e7c162ef8291c3f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:51 +0000
Subject: [PATCH 29/63] fix: hash a variant that holds an empty alternative

---
 include/nbdl/binder/hash.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/nbdl/binder/hash.hpp b/include/nbdl/binder/hash.hpp
index c8bbd2c..34a277b 100644
--- a/include/nbdl/binder/hash.hpp
+++ b/include/nbdl/binder/hash.hpp
@@ -42,9 +42,8 @@ namespace nbdl::binder
 
       template <BindableVariant T>
       void bind(T const& t) {
-        nbdl::bind_variant(t, [&](auto const& type_id, auto const& value) {
-          bind(type_id);
-          bind(value); 
+        nbdl::bind_variant(t, [&](auto const& ...xs) {
+          (bind(xs), ...);
         });
       }
 
-- 
2.43.0


From b7a7b87dd6f9240afdf44292f33eb6caffb1e459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:51 +0000
Subject: [PATCH 30/63] fix: hash the elements of a container as what they are

---
 include/nbdl/binder/hash.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nbdl/binder/hash.hpp b/include/nbdl/binder/hash.hpp
index 34a277b..08c4488 100644
--- a/include/nbdl/binder/hash.hpp
+++ b/include/nbdl/binder/hash.hpp
@@ -50,7 +50,7 @@ namespace nbdl::binder
       template <Container T>
       void bind(T const& t) {
         for (auto const& x : t) {
-          nbdl::detail::hash_combine(digest, x);
+          bind(x);
         }
       }
 
-- 
2.43.0


From 62e16d20d000e8e6f787740271410bbabc777507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:58 +0000
Subject: [PATCH 31/63] fix: compare variants whose alternatives include a
 variant

---
 include/nbdl/variant.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/nbdl/variant.hpp b/include/nbdl/variant.hpp
index 1cbcc41..382893c 100644
--- a/include/nbdl/variant.hpp
+++ b/include/nbdl/variant.hpp
@@ -277,8 +277,9 @@ namespace boost::hana
           [&](auto const& v1)
           {
             using V = std::decay_t<decltype(v1)>;
-            t2.match(hana::overload_linearly(
-              [&](V const& v2)
+            t2.match([&](auto const& v2)
+            {
+              if constexpr(std::is_same<V, std::decay_t<decltype(v2)>>::value)
               {
                 if constexpr(std::is_empty<V>::value)
                 {
@@ -289,8 +290,7 @@ namespace boost::hana
                   result = hana::equal(v1, v2);
                 }
               }
-            , nbdl::noop
-            ));
+            });
           }
         , nbdl::noop
         ));
-- 
2.43.0


From 4b78f3633a371fb0bb5bacc7b706390d4cc170d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:32 +0000
Subject: [PATCH 32/63] fix: select an entity that has no child entities

---
 include/nbdl/sql_db/detail/string_sum.hpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/include/nbdl/sql_db/detail/string_sum.hpp b/include/nbdl/sql_db/detail/string_sum.hpp
index c019491..a834fae 100644
--- a/include/nbdl/sql_db/detail/string_sum.hpp
+++ b/include/nbdl/sql_db/detail/string_sum.hpp
@@ -22,12 +22,25 @@ namespace nbdl::sql_db::detail
     return hana::sum<hana::string_tag>(mpdef::make_list(xs...));
   };
 
-  template <typename Delimeter = hana::string<' '>>
-  constexpr auto string_sum_join = [](auto x1, auto ...xs)
+  template <typename Delimeter>
+  struct string_sum_join_t
   {
-    return string_sum(x1, hana::plus(Delimeter{}, xs)...);
+    // nothing to join
+    constexpr auto operator()() const
+    {
+      return hana::string<>{};
+    }
+
+    template <typename X1, typename ...Xs>
+    constexpr auto operator()(X1 x1, Xs ...xs) const
+    {
+      return string_sum(x1, hana::plus(Delimeter{}, xs)...);
+    }
   };
 
+  template <typename Delimeter = hana::string<' '>>
+  constexpr string_sum_join_t<Delimeter> string_sum_join{};
+
   using identifier_quote_string = hana::string<'"'>; // SQL implementation specific (ANSI)
 
   template <typename Identifier>
-- 
2.43.0


From c9111057a0aeff14e470972f75af061c95590c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:32 +0000
Subject: [PATCH 33/63] fix: select by several keys combines them with AND

---
 include/nbdl/sql_db/statement/select.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nbdl/sql_db/statement/select.hpp b/include/nbdl/sql_db/statement/select.hpp
index fb03913..2eb5ff7 100644
--- a/include/nbdl/sql_db/statement/select.hpp
+++ b/include/nbdl/sql_db/statement/select.hpp
@@ -33,7 +33,7 @@ namespace nbdl::sql_db::statement
     {
       return decltype(detail::string_sum(
         std::declval<Pair1>()
-      , detail::string_sum("=?,"_s, std::declval<PairN>())...
+      , detail::string_sum("=? AND "_s, std::declval<PairN>())...
       , "=?"_s
       )){};
     };
-- 
2.43.0


From 76b3aab05990851da6b9fc6bbb65e2e6c347bb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:32 +0000
Subject: [PATCH 34/63] fix: update by several keys combines them with AND

---
 include/nbdl/sql_db/statement/update.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/nbdl/sql_db/statement/update.hpp b/include/nbdl/sql_db/statement/update.hpp
index b574943..f5aa507 100644
--- a/include/nbdl/sql_db/statement/update.hpp
+++ b/include/nbdl/sql_db/statement/update.hpp
@@ -43,6 +43,16 @@ namespace nbdl::sql_db::statement
       , "\"=?"_s
       )){};
     };
+
+    template <typename Pair1, typename ...PairN>
+    constexpr auto criteria_list(hana::basic_tuple<Pair1, PairN...> const&)
+    {
+      return decltype(detail::string_sum(
+        detail::string_sum("\""_s, hana::first(std::declval<Pair1>()))
+      , detail::string_sum("\"=? AND \""_s, hana::first(std::declval<PairN>()))...
+      , "\"=?"_s
+      )){};
+    };
   }
 
   constexpr auto update = [](auto table_name, auto&& columns_, auto&& keys_)
@@ -56,7 +66,7 @@ namespace nbdl::sql_db::statement
       "UPDATE \""_s, table_name
     , "\" SET "_s
     , update_detail::column_value_list(columns)
-    , " WHERE "_s, update_detail::column_value_list(keys)
+    , " WHERE "_s, update_detail::criteria_list(keys)
     , " LIMIT 1;"_s
     );
 
-- 
2.43.0


From 7ccdf59ac6bb88a645da6923872d772c3c945af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:32 +0000
Subject: [PATCH 35/63] fix: inserting a container gives the keys to every row

---
 include/nbdl/sql_db/insert.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nbdl/sql_db/insert.hpp b/include/nbdl/sql_db/insert.hpp
index bd1d819..abb5b37 100644
--- a/include/nbdl/sql_db/insert.hpp
+++ b/include/nbdl/sql_db/insert.hpp
@@ -127,7 +127,7 @@ namespace nbdl::sql_db
         insert(
           db_insert
         , std::forward<decltype(x)>(x)
-        , std::forward<ForeignKeys>(keys)
+        , keys // every row needs them
         );
       }
     };
-- 
2.43.0


From 8231a9466d1da831818c8c13ed17f1bfcdeb8fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:32 +0000
Subject: [PATCH 36/63] fix: find the session cookie behind a cookie that has
 no value

---
 include/nbdl/app/detail/cookie_parser.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/nbdl/app/detail/cookie_parser.hpp b/include/nbdl/app/detail/cookie_parser.hpp
index fb0d5d6..53ee0f1 100644
--- a/include/nbdl/app/detail/cookie_parser.hpp
+++ b/include/nbdl/app/detail/cookie_parser.hpp
@@ -52,7 +52,6 @@ namespace nbdl::app::detail {
         return x;
       }
 
-      x = skip_past(x, '=');
       x = skip_past(x, ';');
     }
 
-- 
2.43.0


From f6f11df37531f2b699487da7bb1232de93e642af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:42 +0000
Subject: [PATCH 37/63] fix: reject a route parameter that does not fit into
 its type

---
 include/nbdl/webui/route_map.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/nbdl/webui/route_map.hpp b/include/nbdl/webui/route_map.hpp
index 56f50b1..070d568 100644
--- a/include/nbdl/webui/route_map.hpp
+++ b/include/nbdl/webui/route_map.hpp
@@ -21,6 +21,7 @@
 #include <boost/hana/unpack.hpp>
 #include <boost/hana/type.hpp>
 #include <iterator>
+#include <limits>
 #include <mpdef/pair.hpp>
 #include <string>
 #include <string_view>
@@ -61,6 +62,11 @@ namespace nbdl::webui
           // invalid character
           return 0;
         }
+        if (result > (std::numeric_limits<std::size_t>::max() - digit_value) / 10)
+        {
+          // does not fit
+          return 0;
+        }
         result *= 10;
         result += digit_value;
       }
@@ -83,7 +89,12 @@ namespace nbdl::webui
     {
       bool operator()(Member& m, std::string_view param) const
       {
-        m = to_integral_param(param);
+        std::size_t const value = to_integral_param(param);
+        if (value > static_cast<std::size_t>(std::numeric_limits<Member>::max()))
+        {
+          return false;
+        }
+        m = static_cast<Member>(value);
         return m != 0;
       };
     };
-- 
2.43.0


From 2059b2ef652c1f15507cf905264b5c3f33427de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:42 +0000
Subject: [PATCH 38/63] fix: let a route have the ten parameters that are
 allowed

---
 include/nbdl/webui/route_map.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nbdl/webui/route_map.hpp b/include/nbdl/webui/route_map.hpp
index 070d568..79d5640 100644
--- a/include/nbdl/webui/route_map.hpp
+++ b/include/nbdl/webui/route_map.hpp
@@ -139,8 +139,8 @@ namespace nbdl::webui
   template <typename Map>
   class route_map<Map>
   {
-    // max 10 parameters
-    using Params = std::array<std::string_view, 10>;
+    // the name and max 10 parameters
+    using Params = std::array<std::string_view, 11>;
     using ReverseMap = mp_transform<mp_reverse, Map>;
     using Variant = mp_apply<route_variant, mp_map_keys<ReverseMap>>;
 
-- 
2.43.0


From b9dfe840b62358718346547d3bcb5597631347e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:44 +0000
Subject: [PATCH 39/63] fix: name the key of an entity within in a select

---
 include/nbdl/fwd/sql_db/select.hpp                        | 2 +-
 include/nbdl/sql_db/statement/detail/table_alias_list.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nbdl/fwd/sql_db/select.hpp b/include/nbdl/fwd/sql_db/select.hpp
index d62eebd..c450e8c 100644
--- a/include/nbdl/fwd/sql_db/select.hpp
+++ b/include/nbdl/fwd/sql_db/select.hpp
@@ -32,7 +32,7 @@ namespace nbdl::sql_db
   using select_primary_key_name = statement::detail::select_primary_key_name<Entity>;
 
   template <typename Entity, typename Member1, typename ...MemberN>
-  using select_nested_key_name = statement::detail::select_nested_key_name<Member1, MemberN...>;
+  using select_nested_key_name = statement::detail::select_nested_key_name<Entity, Member1, MemberN...>;
 }
 
 #endif
diff --git a/include/nbdl/sql_db/statement/detail/table_alias_list.hpp b/include/nbdl/sql_db/statement/detail/table_alias_list.hpp
index aed6360..6b6e0ec 100644
--- a/include/nbdl/sql_db/statement/detail/table_alias_list.hpp
+++ b/include/nbdl/sql_db/statement/detail/table_alias_list.hpp
@@ -204,7 +204,7 @@ namespace nbdl::sql_db::statement::detail
     sql_db::detail::string_sum(
       identifier_quote<concat_table_alias<table_name<Entity>, member_name<Member>...>>{}
     , table_column_separator{}
-    , identifier_quote<table_key_name<tail<Member...>>>{}
+    , identifier_quote<table_key_name<typename tail<Member...>::member_type>>{}
     )
   );
 
-- 
2.43.0


From e2cbac546336b33c5519a30124cc9972eef5b955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:08 +0000
Subject: [PATCH 40/63] fix: let an entity or an enum have a bind_tag_of

---
 include/nbdl/detail/bind_tag_of.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/nbdl/detail/bind_tag_of.hpp b/include/nbdl/detail/bind_tag_of.hpp
index 0efdc8b..0190aa0 100644
--- a/include/nbdl/detail/bind_tag_of.hpp
+++ b/include/nbdl/detail/bind_tag_of.hpp
@@ -72,6 +72,12 @@ namespace nbdl::_b
   template <typename T>
   using bind_tag_of = typename bto<T>::type;
 
+  template <typename T>
+    requires std::is_enum<T>::value
+  struct bto<T> {
+    using type = std::underlying_type_t<T>;
+  };
+
   template <typename T>
     requires (hana::is_a<hana::type_tag, T>())
   struct bto<T> {
@@ -85,7 +91,10 @@ namespace nbdl::_b
     { return {}; }
   };
 
+  // Entities are bindable both as a sequence and as a map.
+  // The names of the members belong to the API.
   template <BindableSequence T>
+    requires (!BindableMap<T>)
   struct bto<T> {
     using type = std::invoke_result_t<nbdl::detail::bind_sequence_no_filter_fn, T,
                                      bind_tag_unpack_helper>;
-- 
2.43.0


From c99a53e6908ccacc49ed40157dfde53ac3704ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:08 +0000
Subject: [PATCH 41/63] fix: give the types of an optional or of a variant that
 is derived from to api_signature

---
 include/nbdl/variant.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/nbdl/variant.hpp b/include/nbdl/variant.hpp
index 382893c..a15a93a 100644
--- a/include/nbdl/variant.hpp
+++ b/include/nbdl/variant.hpp
@@ -202,6 +202,19 @@ namespace nbdl {
   template <typename ...T>
   auto bind_variant_types<nbdl::variant<T...>> = hana::experimental::types<T...>{};
 
+  namespace detail {
+    template <typename ...T>
+    hana::experimental::types<T...> variant_types(nbdl::variant<T...> const&);
+
+    template <typename T>
+    hana::experimental::types<nothing, T> variant_types(nbdl::optional<T> const&);
+  }
+
+  // An optional, or a type that is derived from a variant
+  template <typename T>
+    requires (hana::is_a<variant_tag, T>())
+  auto bind_variant_types<T> = decltype(detail::variant_types(std::declval<T const&>())){};
+
   // Store
 
   template<>
-- 
2.43.0


From c87cc31b5a0bcd3682e047b3018f35d9c36a4197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:56 +0000
Subject: [PATCH 42/63] fix: give the types of any kind of variant to
 api_signature alike

---
 include/nbdl/variant.hpp | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/include/nbdl/variant.hpp b/include/nbdl/variant.hpp
index a15a93a..2166602 100644
--- a/include/nbdl/variant.hpp
+++ b/include/nbdl/variant.hpp
@@ -199,18 +199,12 @@ namespace nbdl {
     }
   };
 
-  template <typename ...T>
-  auto bind_variant_types<nbdl::variant<T...>> = hana::experimental::types<T...>{};
-
   namespace detail {
-    template <typename ...T>
-    hana::experimental::types<T...> variant_types(nbdl::variant<T...> const&);
-
-    template <typename T>
-    hana::experimental::types<nothing, T> variant_types(nbdl::optional<T> const&);
+    template <typename DefaultType, typename ...T>
+    hana::experimental::types<T...> variant_types(variant<DefaultType, T...> const&);
   }
 
-  // An optional, or a type that is derived from a variant
+  // This includes types that are derived from a variant.
   template <typename T>
     requires (hana::is_a<variant_tag, T>())
   auto bind_variant_types<T> = decltype(detail::variant_types(std::declval<T const&>())){};
-- 
2.43.0


From 771c39ba29bb61a7fadb6bbe696beaee78256b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:13 +0000
Subject: [PATCH 43/63] fix: let for_each replace its own nodes only, not all
 there are in the element

---
 include/nbdl/webui/detail/dom_manips.hpp | 76 ++++++++++++++++++++++--
 1 file changed, 71 insertions(+), 5 deletions(-)

diff --git a/include/nbdl/webui/detail/dom_manips.hpp b/include/nbdl/webui/detail/dom_manips.hpp
index aa6cc4a..0b7a924 100644
--- a/include/nbdl/webui/detail/dom_manips.hpp
+++ b/include/nbdl/webui/detail/dom_manips.hpp
@@ -92,6 +92,69 @@ namespace nbdl::webui::detail
   template <typename Store, typename List>
   using make_nested_renderer_tuple = typename make_nested_renderer_tuple_impl<Store, List>::type;
 
+  //
+  // dom_slot - The place of nodes that come and go among the children
+  //            of an element. It is kept by two empty text nodes.
+  //
+
+  class dom_slot
+  {
+    emscripten::val first;
+    emscripten::val last;
+
+    static emscripten::val make_empty_text_node()
+    {
+      return emscripten::val::global("document").template
+        call<emscripten::val>("createTextNode", emscripten::val(""));
+    }
+
+    public:
+
+    dom_slot()
+      : first(make_empty_text_node())
+      , last(make_empty_text_node())
+    { }
+
+    void append_to(emscripten::val& parent)
+    {
+      parent.template call<void>("appendChild", first);
+      parent.template call<void>("appendChild", last);
+    }
+
+    // moves the children of the container into the slot
+    void put(emscripten::val const& container)
+    {
+      emscripten::val parent = last["parentNode"];
+      for (
+        emscripten::val node = container["firstChild"];
+        not node.isNull();
+        node = container["firstChild"]
+      )
+      {
+        parent.template call<void>("insertBefore", node, last);
+      }
+    }
+
+    // moves what is in the slot into the container
+    void take(emscripten::val& container)
+    {
+      for (
+        emscripten::val node = first["nextSibling"];
+        not node.strictlyEquals(last);
+        node = first["nextSibling"]
+      )
+      {
+        container.template call<void>("appendChild", node);
+      }
+    }
+  };
+
+  inline emscripten::val make_node_container()
+  {
+    return emscripten::val::global("document").template
+      call<emscripten::val>("createElement", emscripten::val("span"));
+  }
+
   //
   // action_fn specializations
   //
@@ -620,19 +683,19 @@ namespace nbdl::webui::detail
     using NodeRenderer = renderer_impl<decltype(std::declval<Range>().begin()), NodeFnList, hana::true_>;
 
     Store store;
-    emscripten::val el;
+    dom_slot slot;
     std::vector<NodeRenderer> renderers;
 
     mut_action_fn(Store s)
       : store(s)
-      , el(emscripten::val::undefined())
+      , slot()
       , renderers()
     { }
 
     template <typename ParentElement>
     decltype(auto) operator()(ParentElement&& p)
     {
-      el = p;
+      slot.append_to(p);
       update();
       return std::forward<ParentElement>(p);
     }
@@ -640,7 +703,9 @@ namespace nbdl::webui::detail
     void update()
     {
       // This is currently very naive.
-      el.set("innerHTML", emscripten::val(""));
+      emscripten::val old_nodes = make_node_container();
+      emscripten::val nodes = make_node_container();
+      slot.take(old_nodes);
       ui_helper::match_path_spec(store, PathSpec{}, [&](auto const& container)
       {
         Range range = store_range(ItrKey{}, container, store);
@@ -658,11 +723,12 @@ namespace nbdl::webui::detail
         for (auto x : range)
         {
           NodeRenderer temp_renderer{x};
-          temp_renderer.render(el);
+          temp_renderer.render(nodes);
           temp_renderers.push_back(std::move(temp_renderer));
         }
         renderers = std::move(temp_renderers);
       });
+      slot.put(nodes);
     }
 
     void destroy()
-- 
2.43.0


From 8b2f791b5160d9d61fcc949ec7798691ea70c320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:45 +0000
Subject: [PATCH 44/63] fix: let a branch of the document have any number of
 nodes, which may be branches in turn

---
 include/nbdl/webui/detail/dom_manips.hpp | 34 +++++++-----------------
 1 file changed, 9 insertions(+), 25 deletions(-)

diff --git a/include/nbdl/webui/detail/dom_manips.hpp b/include/nbdl/webui/detail/dom_manips.hpp
index 0b7a924..4bae754 100644
--- a/include/nbdl/webui/detail/dom_manips.hpp
+++ b/include/nbdl/webui/detail/dom_manips.hpp
@@ -386,7 +386,7 @@ namespace nbdl::webui::detail
   template <typename NodeContainers, std::size_t ...i>
   NodeContainers make_branch_node_containers(std::index_sequence<i...>)
   {
-    return NodeContainers{{(static_cast<void>(i), emscripten::val::undefined())...}};
+    return NodeContainers{{(static_cast<void>(i), make_node_container())...}};
   }
 
   //  Branches - list<pair<T, list<action...>>...>
@@ -399,14 +399,14 @@ namespace nbdl::webui::detail
     using NodeContainers = std::array<emscripten::val, mp_size<FnLists>::value>;
 
     Store store;
-    emscripten::val parent_el;
+    dom_slot slot;
     std::size_t branch_id;
     NodeContainers node_containers;
     Renderers renderers;
 
     mut_action_fn(Store s)
       : store(s)
-      , parent_el(emscripten::val::undefined())
+      , slot()
       , branch_id(-1)
       , node_containers(make_branch_node_containers<NodeContainers>(
           std::make_index_sequence<mp_size<FnLists>::value>{}
@@ -416,30 +416,18 @@ namespace nbdl::webui::detail
 
     void update_branch()
     {
-      // FIXME
-      // How do we know if the child is a branch and its element changes??
-      // Options:
-      // 1. We could flatten composed branches to prevent nesting.
-      // 2. Nested renderers could have a get_element function that refers
-      //    to this node's current element.
-
       std::size_t index = nbdl::ui_helper::get_branch_index<BranchSpec>(store);
       if (index != branch_id)
       {
         // Something changed! :D
-        if (branch_id != static_cast<std::size_t>(-1))
+        if (branch_id < node_containers.size())
         {
-          parent_el.template call<void>(
-            "replaceChild"
-          , node_containers[index]
-          , node_containers[branch_id]
-          );
+          slot.take(node_containers[branch_id]);
         }
-        else
+        if (index < node_containers.size())
         {
-          parent_el.template call<void>("appendChild", node_containers[index]);
+          slot.put(node_containers[index]);
         }
-
       }
       branch_id = index;
     }
@@ -463,16 +451,12 @@ namespace nbdl::webui::detail
     template <typename ParentElement>
     decltype(auto) operator()(ParentElement&& p)
     {
-      parent_el = p;
-
-      auto temp_span = emscripten::val::global("document").template
-        call<emscripten::val>("createElement", emscripten::val("span"));
+      slot.append_to(p);
 
       constexpr auto range = hana::make_range(hana::size_c<0>, mp_size<FnLists>{}); 
       hana::for_each(range, [&](auto index)
       {
-        hana::at(renderers, index).render(temp_span);
-        node_containers[decltype(index)::value] = temp_span["lastChild"];
+        hana::at(renderers, index).render(node_containers[decltype(index)::value]);
       });
 
       update_branch();
-- 
2.43.0


From 5f795caf2650ffacb43e91273eedb0f1997435d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:11 +0000
Subject: [PATCH 45/63] fix: let a handler send more than once although the
 first message renders its element anew

---
 include/nbdl/webui/detail/event_receiver.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/nbdl/webui/detail/event_receiver.hpp b/include/nbdl/webui/detail/event_receiver.hpp
index 2fde6b0..c85fb5d 100644
--- a/include/nbdl/webui/detail/event_receiver.hpp
+++ b/include/nbdl/webui/detail/event_receiver.hpp
@@ -59,10 +59,12 @@ namespace nbdl::webui::detail
     void receive_event()
     {
       auto store_with_event = nbdl::store_compose(html::event_data, std::ref(vals->event_data), store);
-      auto send = [&](auto&& message)
+      // sending a message may render the document anew and destroy this
+      Store store_ = store;
+      auto send = [&store_](auto&& message)
       {
         nbdl::apply_action(
-          store
+          store_
         , std::forward<decltype(message)>(message)
         );
       };
-- 
2.43.0


From fae7dc103251b9b733a4d17c1d6890862ab740f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:01 +0000
Subject: [PATCH 46/63] fix: write booleans, unsigned numbers and any text as
 what they are to javascript and read any text

---
 include/nbdl/binder/js.hpp     | 67 +++++++++++++++++++++-------------
 include/nbdl/detail/js_val.hpp |  7 ++++
 2 files changed, 48 insertions(+), 26 deletions(-)

diff --git a/include/nbdl/binder/js.hpp b/include/nbdl/binder/js.hpp
index a13a770..b0ed346 100644
--- a/include/nbdl/binder/js.hpp
+++ b/include/nbdl/binder/js.hpp
@@ -124,7 +124,11 @@ namespace nbdl::binder::js
       static void apply(js_val& val, X const& x) {
         EM_ASM_(
           {
-            Module.NBDL_DETAIL_JS_SET($0, UTF8ToString($1, $2));
+            var bytes = new Uint8Array(Module.HEAPU8.buffer, $1, $2);
+            Module.NBDL_DETAIL_JS_SET(
+              $0
+            , new TextDecoder('utf-8', { ignoreBOM: true }).decode(bytes)
+            );
           }
         , val.handle()
         , x.data()
@@ -138,13 +142,37 @@ namespace nbdl::binder::js
     struct bind_to_impl<T> {
       template <typename X>
       static void apply(js_val& val, X x) {
-        EM_ASM_(
-          {
-            Module.NBDL_DETAIL_JS_SET($0, $1);
-          }
-        , val.handle()
-        , x
-        );
+        if constexpr(std::is_same<X, bool>::value)
+        {
+          EM_ASM_(
+            {
+              Module.NBDL_DETAIL_JS_SET($0, $1 !== 0);
+            }
+          , val.handle()
+          , x
+          );
+        }
+        else if constexpr(std::is_unsigned<X>::value)
+        {
+          EM_ASM_(
+            {
+              // the arguments are signed
+              Module.NBDL_DETAIL_JS_SET($0, $1 >>> 0);
+            }
+          , val.handle()
+          , x
+          );
+        }
+        else
+        {
+          EM_ASM_(
+            {
+              Module.NBDL_DETAIL_JS_SET($0, $1);
+            }
+          , val.handle()
+          , x
+          );
+        }
       }
     };
 
@@ -153,13 +181,7 @@ namespace nbdl::binder::js
     struct bind_to_impl<T> {
       template <typename X>
       static void apply(js_val& val, X x) {
-        EM_ASM_(
-          {
-            Module.NBDL_DETAIL_JS_SET($0, $1);
-          }
-        , val.handle()
-        , static_cast<std::underlying_type_t<X>>(x)
-        );
+        bind_to(val, static_cast<std::underlying_type_t<X>>(x));
       }
     };
 
@@ -288,7 +310,7 @@ namespace nbdl::binder::js
 
         int length = EM_ASM_INT(
           {
-            return Module.NBDL_DETAIL_JS_GET($0).length;
+            return Module.NBDL_DETAIL_JS_BYTES($0).length;
           }
         , val.handle()
         );
@@ -297,16 +319,9 @@ namespace nbdl::binder::js
 
         EM_ASM_(
           {
-            var v = Module.NBDL_DETAIL_JS_GET($0);
-            if (typeof v === 'string')
-            {
-              Module.stringToAscii(v, $1);
-            }
-            else // assume its an ArrayBuffer
-            {
-              var heap = new Uint8Array(Module.HEAPU8.buffer, $1, v.length);
-              heap.set(v);
-            }
+            var bytes = Module.NBDL_DETAIL_JS_BYTES($0);
+            var heap = new Uint8Array(Module.HEAPU8.buffer, $1, bytes.length);
+            heap.set(bytes);
           }
         , val.handle()
         , temp.data()
diff --git a/include/nbdl/detail/js_val.hpp b/include/nbdl/detail/js_val.hpp
index 573219f..0951774 100644
--- a/include/nbdl/detail/js_val.hpp
+++ b/include/nbdl/detail/js_val.hpp
@@ -28,6 +28,13 @@ namespace nbdl::detail
             Module.nbdl_detail_json_val[handle] = value;
             return Module.nbdl_detail_json_val[handle];
           };
+          // the bytes of an ArrayBuffer or of the UTF-8 of a string
+          Module.NBDL_DETAIL_JS_BYTES = function(handle) {
+            var value = Module.nbdl_detail_json_val[handle];
+            return typeof value === 'string'
+              ? new TextEncoder().encode(value)
+              : new Uint8Array(value);
+          };
           Module.nbdl_detail_json_val = {};
         }
       });
-- 
2.43.0


From 612ea22b75798f290acaac15c3d1ee3b6a6db2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:01 +0000
Subject: [PATCH 47/63] fix: give a message of bytes to the handler of a
 websocket as it came

---
 .../websocket_api/detail/convert_payload.hpp   | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/include/nbdl/websocket_api/detail/convert_payload.hpp b/include/nbdl/websocket_api/detail/convert_payload.hpp
index d72a0c9..c02ff6c 100644
--- a/include/nbdl/websocket_api/detail/convert_payload.hpp
+++ b/include/nbdl/websocket_api/detail/convert_payload.hpp
@@ -26,28 +26,20 @@ namespace nbdl::websocket_api::detail
   {
     static_assert(sizeof(Char) == 1);
 
-    static void apply(nbdl::detail::js_val const& val, std::vector<unsigned char>& p)
+    static void apply(nbdl::detail::js_val const& val, std::vector<Char, Allocator>& p)
     {
       int len = EM_ASM_INT(
         {
-          return Module.NBDL_DETAIL_JS_GET($0).length;
+          return Module.NBDL_DETAIL_JS_BYTES($0).length;
         }
       , js::detail::get_handle(val)
       );
       p.resize(len);
-      p.clear();
       EM_ASM_(
         {
-          var v = Module.NBDL_DETAIL_JS_GET($0);
-          if (typeof v === 'string')
-          {
-            Module.stringToAscii(v, $1);
-          }
-          else // assume its an ArrayBuffer
-          {
-            var heap = new Uint8Array(Module.HEAPU8.buffer, $1, v.length);
-            heap.set(v);
-          }
+          var bytes = Module.NBDL_DETAIL_JS_BYTES($0);
+          var heap = new Uint8Array(Module.HEAPU8.buffer, $1, bytes.length);
+          heap.set(bytes);
         }
       , js::detail::get_handle(val)
       , p.data()
-- 
2.43.0


From 83e61ce5a67f6e43ae3268e97b48f02e8b69729c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:01 +0000
Subject: [PATCH 48/63] fix: send the bytes of the message, not all of the
 memory

---
 include/nbdl/websocket_api/detail/endpoint_impl.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/nbdl/websocket_api/detail/endpoint_impl.hpp b/include/nbdl/websocket_api/detail/endpoint_impl.hpp
index 0cce7b8..d20fcf9 100644
--- a/include/nbdl/websocket_api/detail/endpoint_impl.hpp
+++ b/include/nbdl/websocket_api/detail/endpoint_impl.hpp
@@ -220,7 +220,8 @@ namespace nbdl::websocket_api::detail
     {
       EM_ASM_(
         {
-          Module.NBDL_DETAIL_JS_GET($0).send(Module.HEAPU8.subarray($1, $2).buffer);
+          Module.NBDL_DETAIL_JS_GET($0).send(
+            new Uint8Array(Module.HEAPU8.buffer, $1, $2));
         }
       , js::detail::get_handle(websocket)
       , p.data()
-- 
2.43.0


From 9499d30a87cd6c85518d0807315926183892663e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:26 +0000
Subject: [PATCH 49/63] fix: leave the handlers of a websocket alone when the
 endpoint is gone

---
 .../websocket_api/detail/endpoint_impl.hpp     | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/nbdl/websocket_api/detail/endpoint_impl.hpp b/include/nbdl/websocket_api/detail/endpoint_impl.hpp
index d20fcf9..97ec4d5 100644
--- a/include/nbdl/websocket_api/detail/endpoint_impl.hpp
+++ b/include/nbdl/websocket_api/detail/endpoint_impl.hpp
@@ -116,7 +116,19 @@ namespace nbdl::websocket_api::detail
         var s = new window.WebSocket(UTF8ToString($0, $1));
         s.binaryType = 'arraybuffer';
 
-        s.addEventListener('open', function(event)
+        // the endpoint is gone if the socket is not registered any more
+        var listen = function(name, fn)
+        {
+          s.addEventListener(name, function(event)
+          {
+            if (Module.NBDL_DETAIL_JS_GET($3) === s)
+            {
+              fn(event);
+            }
+          });
+        };
+
+        listen('open', function(event)
         {
           Module.__nbdl_endpoint_ready($2); 
         });
@@ -125,7 +137,7 @@ namespace nbdl::websocket_api::detail
         // or it throws and exception
         s.addEventListener('error', function(event) { });
 
-        s.addEventListener('message', function(event)
+        listen('message', function(event)
         {
           Module.NBDL_DETAIL_JS_SET(
             Module.__nbdl_endpoint_value_handle($2)
@@ -134,7 +146,7 @@ namespace nbdl::websocket_api::detail
           Module.__nbdl_endpoint_message($2); 
         });
 
-        s.addEventListener('close', function(event)
+        listen('close', function(event)
         {
           Module.NBDL_DETAIL_JS_SET(
             Module.__nbdl_endpoint_value_handle($2)
-- 
2.43.0


From 78e4bea9a4004c74f341c0112b5f1b1beface898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:56 +0000
Subject: [PATCH 50/63] fix: keep the characters of a route that the browser
 encodes in its location

---
 include/nbdl/webui/nav_route.hpp | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/include/nbdl/webui/nav_route.hpp b/include/nbdl/webui/nav_route.hpp
index d56e9b8..718998c 100644
--- a/include/nbdl/webui/nav_route.hpp
+++ b/include/nbdl/webui/nav_route.hpp
@@ -43,10 +43,11 @@ namespace nbdl::webui
     {
       EM_ASM_(
         {
-          var s = Module.NBDL_WEBUI_NAV_URI_PREFIX + UTF8ToString($0);
-          window.history.pushState(null, null, s);
+          var s = UTF8ToString($0, $1).split('/').map(encodeURIComponent).join('/');
+          window.history.pushState(null, null, Module.NBDL_WEBUI_NAV_URI_PREFIX + s);
         }
       , route.data()
+      , route.size()
       );
     }
 
@@ -77,18 +78,27 @@ namespace nbdl::webui
 
       void receive_event()
       {
-        std::size_t length = EM_ASM_INT({
-          return window.location.pathname.length
-                 - Module.NBDL_WEBUI_NAV_URI_PREFIX.length;
-        }, 0);
+        // the browser gives the path percent encoded
+        int length = EM_ASM_INT({
+          var s = window.location.pathname.slice(
+            Module.NBDL_WEBUI_NAV_URI_PREFIX.length);
+          s = s.split('/').map(function(part)
+          {
+            try { return decodeURIComponent(part); }
+            catch (error) { return part; }
+          }).join('/');
+          Module.NBDL_DETAIL_JS_SET($0, s);
+          return Module.NBDL_DETAIL_JS_BYTES($0).length;
+        }, vals->event_data.handle());
         nbdl::string route(length, '\0');
 
         EM_ASM_(
           {
-            var s = window.location.pathname.slice(
-              Module.NBDL_WEBUI_NAV_URI_PREFIX.length);
-            stringToAscii(s, $0);
+            var bytes = Module.NBDL_DETAIL_JS_BYTES($0);
+            var heap = new Uint8Array(Module.HEAPU8.buffer, $1, bytes.length);
+            heap.set(bytes);
           }
+        , vals->event_data.handle()
         , route.data()
         );
 
-- 
2.43.0


From c47be8733ab245a8a412fef0cc04c1dae906e0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:56 +0000
Subject: [PATCH 51/63] fix: let the store follow an update of the text of the
 route

---
 include/nbdl/webui/nav_route.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/nbdl/webui/nav_route.hpp b/include/nbdl/webui/nav_route.hpp
index 718998c..c709ba5 100644
--- a/include/nbdl/webui/nav_route.hpp
+++ b/include/nbdl/webui/nav_route.hpp
@@ -175,6 +175,7 @@ namespace nbdl
       if constexpr(nbdl::webui::detail::is_nav_route_string_path<Message>)
       {
         webui::detail::web_route_update(message::get_payload(m));
+        p.receiver->virtual_(webui::detail::receive_event_s)(*p.receiver);
       }
       else if constexpr(nbdl::webui::detail::is_nav_route_path<Message>)
       {
-- 
2.43.0


From 1c1e55fc62122d7ce68bed21f5231497a77485fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:56 +0000
Subject: [PATCH 52/63] fix: do not listen to the history any more when the
 context is gone

---
 include/nbdl/webui/nav_route.hpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/include/nbdl/webui/nav_route.hpp b/include/nbdl/webui/nav_route.hpp
index c709ba5..829cd41 100644
--- a/include/nbdl/webui/nav_route.hpp
+++ b/include/nbdl/webui/nav_route.hpp
@@ -71,6 +71,26 @@ namespace nbdl::webui
               // call the handler
               Module.NBDL_DETAIL_JS_GET($0)();
             };
+            window.onpopstate.nbdl_handle = $0;
+          }
+        , vals->handler.handle()
+        );
+      }
+
+      popstate_event_receiver(popstate_event_receiver&&) = default;
+
+      ~popstate_event_receiver()
+      {
+        if (!vals)
+        {
+          // moved from
+          return;
+        }
+        EM_ASM_(
+          {
+            if (window.onpopstate && window.onpopstate.nbdl_handle === $0) {
+              window.onpopstate = null;
+            }
           }
         , vals->handler.handle()
         );
-- 
2.43.0


From 885ed24e742decf1ae9370f84df03c36c5d6cedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:56 +0000
Subject: [PATCH 53/63] fix: release the callbacks of a javascript promise when
 it is settled

---
 include/nbdl/macros/NBDL_JS_PROMISE.hpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/nbdl/macros/NBDL_JS_PROMISE.hpp b/include/nbdl/macros/NBDL_JS_PROMISE.hpp
index a4245ed..35cdad2 100644
--- a/include/nbdl/macros/NBDL_JS_PROMISE.hpp
+++ b/include/nbdl/macros/NBDL_JS_PROMISE.hpp
@@ -13,6 +13,7 @@
 
 #include <boost/hana/tuple.hpp>
 #include <array>
+#include <memory>
 #include <utility>
 
 namespace nbdl::js::detail
@@ -21,25 +22,28 @@ namespace nbdl::js::detail
   {
     return nbdl::promise([js_routine](auto& resolver, auto const& input_vals)
     {
-      // Really weird lifetime management stuffs here
       // pair(resolve, reject)
-      std::pair<callback_t, callback_t>* delete_me{};
+      // They own each other until one of them is called.
+      using callbacks = std::pair<callback_t, callback_t>;
+      auto owner = std::make_shared<std::unique_ptr<callbacks>>();
 
-      auto resolve = callback([&resolver, delete_me](auto const& result)
+      auto resolve = callback([&resolver, owner](auto const& result)
       {
-        delete delete_me;
+        // this lambda is destroyed along with them
+        auto delete_me = std::move(*owner);
         resolver.resolve(result);
       });
 
-      auto reject  = callback([&resolver, delete_me](auto const& result)
+      auto reject  = callback([&resolver, owner](auto const& result)
       {
-        delete delete_me;
+        auto delete_me = std::move(*owner);
         resolver.reject(result);
       });
 
-      delete_me = new std::pair<callback_t, callback_t>(std::move(resolve), std::move(reject));
+      *owner = std::make_unique<callbacks>(std::move(resolve), std::move(reject));
 
-      js_routine(delete_me->first, delete_me->second, input_vals);
+      auto const& [resolve_, reject_] = **owner;
+      js_routine(resolve_, reject_, input_vals);
     });
   };
 
-- 
2.43.0


From 3cd15a2e88b1d6dae7cb14d1fc65a677ff8a3f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:18 +0000
Subject: [PATCH 54/63] fix: give each create of a path a key of its own
 whatever its message holds

---
 include/nbdl/echo_producer.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/nbdl/echo_producer.hpp b/include/nbdl/echo_producer.hpp
index c54703e..7885a89 100644
--- a/include/nbdl/echo_producer.hpp
+++ b/include/nbdl/echo_producer.hpp
@@ -20,10 +20,10 @@ namespace nbdl
 
   namespace echo_producer_detail
   {
-    template <typename Message>
-    auto make_unique_key(Message const& m)
+    // counts for all kinds of messages with that path
+    template <typename Path>
+    auto make_unique_key()
     {
-      using Path = typename decltype(message::get_path_type(m))::type;
       using Key = std::decay_t<decltype(hana::back(std::declval<Path>()))>;
 
       if constexpr(std::is_empty<Key>::value)
@@ -74,7 +74,9 @@ namespace nbdl
           p.context
         , message::to_downstream_with_key(
             m,
-            echo_producer_detail::make_unique_key(m)
+            echo_producer_detail::make_unique_key<
+              typename decltype(message::get_path_type(m))::type
+            >()
           )
         );
       }
-- 
2.43.0


From 8f65019ef8faeb089cee116624c840b23e578f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:30 +0000
Subject: [PATCH 55/63] fix: call no handler of an endpoint that was stopped
 during the handshake

---
 include/nbdl/websocket/client_endpoint.hpp      | 10 +++++-----
 include/nbdl/websocket/detail/endpoint_impl.hpp |  7 ++++---
 include/nbdl/websocket/server_endpoint.hpp      | 14 +++++++-------
 3 files changed, 16 insertions(+), 15 deletions(-)

diff --git a/include/nbdl/websocket/client_endpoint.hpp b/include/nbdl/websocket/client_endpoint.hpp
index d427938..c8a1ebf 100644
--- a/include/nbdl/websocket/client_endpoint.hpp
+++ b/include/nbdl/websocket/client_endpoint.hpp
@@ -48,19 +48,19 @@ namespace nbdl
       shared_endpoint->init(
         [ origin = origin
         , auth_token = auth_token
-        ](auto self, auto& socket, auto& handler)
+        ](auto self, auto& socket, auto&)
         {
           nbdl::run_async(
             hana::make_tuple(
               websocket::detail::send_handshake_request(origin, auth_token)
             , websocket::detail::parse_handshake_response()
-            , [self, &handler](auto&&)
+            , [self](auto&&)
               {
-                handler[endpoint_event::ready](*self);
+                self->call_handler(endpoint_event::ready);
               }
-            , nbdl::catch_([self, &handler](auto&& error)
+            , nbdl::catch_([self](auto&& error)
               {
-                handler[hana::typeid_(error)](*self, std::forward<decltype(error)>(error));
+                self->call_handler(hana::typeid_(error), std::forward<decltype(error)>(error));
               })
             )
           , socket
diff --git a/include/nbdl/websocket/detail/endpoint_impl.hpp b/include/nbdl/websocket/detail/endpoint_impl.hpp
index 989175a..9afed02 100644
--- a/include/nbdl/websocket/detail/endpoint_impl.hpp
+++ b/include/nbdl/websocket/detail/endpoint_impl.hpp
@@ -129,6 +129,10 @@ namespace nbdl::websocket::detail
     void start_messaging();
     bool stop();
 
+    // not called any more once stopped
+    template <typename Key, typename ...Args>
+    void call_handler(Key, Args&& ...);
+
   private:
     void start_send_queue();
     bool is_sending_close();
@@ -136,9 +140,6 @@ namespace nbdl::websocket::detail
     bool has_sent_close();
     auto make_reader_handler(Handler&);
 
-    template <typename Key, typename ...Args>
-    void call_handler(Key, Args&& ...);
-
     tcp::socket socket;
     detail::control_frame<Payload> pending_control_frame;
     Handler handler;
diff --git a/include/nbdl/websocket/server_endpoint.hpp b/include/nbdl/websocket/server_endpoint.hpp
index 14c60b7..f16d1b7 100644
--- a/include/nbdl/websocket/server_endpoint.hpp
+++ b/include/nbdl/websocket/server_endpoint.hpp
@@ -31,23 +31,23 @@ namespace nbdl
   {
     using tcp = asio::ip::tcp;
 
-    constexpr auto server_endpoint_init = [](auto self, tcp::socket& socket, auto& handler)
+    constexpr auto server_endpoint_init = [](auto self, tcp::socket& socket, auto&)
     {
       nbdl::run_async(
         hana::make_tuple(
           websocket::detail::parse_handshake_request()
         , websocket::detail::send_handshake_response()
-        , [self, &handler](tcp::socket&, auto const& auth_token)
+        , [self](tcp::socket&, auto const& auth_token)
           {
-            handler[endpoint_event::ready](*self, auth_token);
+            self->call_handler(endpoint_event::ready, auth_token);
           }
-        , nbdl::catch_([self, &handler](hana::basic_type<event::bad_request_t>)
+        , nbdl::catch_([self](hana::basic_type<event::bad_request_t>)
           {
-            handler[event::bad_request](*self);
+            self->call_handler(event::bad_request);
           })
-        , nbdl::catch_([self, &handler](auto&& error)
+        , nbdl::catch_([self](auto&& error)
           {
-            handler[hana::typeid_(error)](*self, std::forward<decltype(error)>(error));
+            self->call_handler(hana::typeid_(error), std::forward<decltype(error)>(error));
           })
         )
       , socket
-- 
2.43.0


From 9dd25cceb0ffce78f08e42642e91d8d5a47aa7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:40 +0000
Subject: [PATCH 56/63] fix: give one error, not two, for a message that is no
 JSON

---
 include/nbdl/app/serializer.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/nbdl/app/serializer.hpp b/include/nbdl/app/serializer.hpp
index ab39de3..08cb47f 100644
--- a/include/nbdl/app/serializer.hpp
+++ b/include/nbdl/app/serializer.hpp
@@ -65,6 +65,7 @@ namespace nbdl::app
           nbdl::binder::jsoncpp::from_string(msg_buf, var);
         } catch(...) {
           resolve(make_error("JSONCPP Parse Error"));
+          return;
         }
 
         nbdl::match(std::move(var), hana::overload_linearly(
-- 
2.43.0


From 3c2e2ec7b013221812ac1d3db5f8f3c9430d5fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:23 +0000
Subject: [PATCH 57/63] fix: hash equal unordered containers equally

---
 include/nbdl/binder/hash.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/nbdl/binder/hash.hpp b/include/nbdl/binder/hash.hpp
index 08c4488..a28b4db 100644
--- a/include/nbdl/binder/hash.hpp
+++ b/include/nbdl/binder/hash.hpp
@@ -49,8 +49,20 @@ namespace nbdl::binder
 
       template <Container T>
       void bind(T const& t) {
-        for (auto const& x : t) {
-          bind(x);
+        // the order of an unordered container is no part of its value
+        if constexpr (requires { typename T::hasher; }) {
+          std::size_t sum = 0;
+          for (auto const& x : t) {
+            writer element{};
+            element.bind(x);
+            sum += element.digest;
+          }
+          nbdl::detail::hash_combine(digest, sum);
+        }
+        else {
+          for (auto const& x : t) {
+            bind(x);
+          }
         }
       }
 
-- 
2.43.0


From 06e71c9315e4b7ddda7a8c6befc7c7234051f2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:38 +0000
Subject: [PATCH 58/63] fix: match an unordered_map without a key

---
 include/nbdl/ext/std/unordered_map.hpp | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/include/nbdl/ext/std/unordered_map.hpp b/include/nbdl/ext/std/unordered_map.hpp
index f767f30..4039da2 100644
--- a/include/nbdl/ext/std/unordered_map.hpp
+++ b/include/nbdl/ext/std/unordered_map.hpp
@@ -22,12 +22,6 @@ namespace nbdl
   {
     using T = std::unordered_map<MapArgs...>;
 
-    template <typename Store, typename Fn>
-    static void apply(Store&& s, Fn&& fn)
-    {
-      std::forward<Fn>(fn)(std::forward<Store>(s));
-    }
-
     template <typename Store, typename Key, typename Fn>
     static void apply(Store&& s, Key&& k, Fn&& fn)
     {
-- 
2.43.0


From 082afa8248d1a0837aae89c7a29263079b6e5feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:26 +0000
Subject: [PATCH 59/63] fix: refuse fragmented control frames

---
 include/nbdl/websocket/detail/message_reader.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/nbdl/websocket/detail/message_reader.hpp b/include/nbdl/websocket/detail/message_reader.hpp
index 2745e4d..42086f0 100644
--- a/include/nbdl/websocket/detail/message_reader.hpp
+++ b/include/nbdl/websocket/detail/message_reader.hpp
@@ -292,6 +292,13 @@ namespace nbdl::websocket::detail
   // all of the branches are stateless.
   auto opcode_dispatch = nbdl::promise([](auto& resolver, auto& frame_ctx)
   {
+    // RFC 6455 5.5 Control frames must not be fragmented
+    if ((frame_ctx.buf_1[0] & 0x08) != 0 && not has_fin_bit(frame_ctx))
+    {
+      resolver.reject(read_event::bad_input);
+      return;
+    }
+
     switch (frame_ctx.buf_1[0] & 0x0F) // Removes FIN bit
     {
       case 0x0: // DATA
-- 
2.43.0


From 9c627a49f48536197a26472621b8edd5426fc44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:40 +0000
Subject: [PATCH 60/63] fix: give match_when the value at the key of a variant

---
 include/nbdl/variant.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/nbdl/variant.hpp b/include/nbdl/variant.hpp
index 2166602..c4fcf0a 100644
--- a/include/nbdl/variant.hpp
+++ b/include/nbdl/variant.hpp
@@ -240,10 +240,9 @@ namespace nbdl {
     template <typename Store, typename Key, typename Fn>
     static constexpr void apply(Store&& s, Key&& k, Fn&& fn)
     {
-      detail::variant_visit_impl<hana::tag_of_t<Fn>>::apply(
-        std::forward<Store>(s)
-      , fn
-      , [&](auto&& value)
+      // (match_when is about the value at the key)
+      std::forward<Store>(s).match(
+        [&](auto&& value)
         {
           if constexpr(nbdl::Store<decltype(value)>)
           {
-- 
2.43.0


From 33b049b265038de97cd72c696cf894a03c516d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:53 +0000
Subject: [PATCH 61/63] fix: keep the tiles of the last row on the board

---
 example/tiles/game.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/example/tiles/game.hpp b/example/tiles/game.hpp
index 0d6fee7..2370581 100644
--- a/example/tiles/game.hpp
+++ b/example/tiles/game.hpp
@@ -39,7 +39,7 @@ namespace tiles
       if (i >= g.width
         && g.board[i - g.width] == 0)       return i - g.width;     // above
 
-      if (i <= g.height * g.width - g.width
+      if (i < g.height * g.width - g.width
         && g.board[i + g.width] == 0)       return i + g.width;     // below
 
       // The tile is not adjacent to the empty space.
-- 
2.43.0


From 3be4471dd10171ed5f8fb5e094eea3b87f38e339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:25 +0000
Subject: [PATCH 62/63] fix: read an enumeration of any size from JSON by its
 own range

---
 include/nbdl/binder/jsoncpp.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/nbdl/binder/jsoncpp.hpp b/include/nbdl/binder/jsoncpp.hpp
index 74e6ddf..1ca03da 100644
--- a/include/nbdl/binder/jsoncpp.hpp
+++ b/include/nbdl/binder/jsoncpp.hpp
@@ -21,6 +21,7 @@
 #include <nbdl/util/base64_encode.hpp>
 
 #include <json/json.h>
+#include <limits>
 #include <memory>
 #include <sstream>
 #include <string>
@@ -66,10 +67,16 @@ namespace nbdl { namespace binder { namespace jsoncpp
       void bind_enum(Json::Value const& obj, T& field) {
         if (!obj.isIntegral())
           throw std::runtime_error("JSON Integral expected");
-        if constexpr(std::is_signed_v<std::underlying_type_t<T>>)
-          field = static_cast<T>(obj.asInt());
+        using Limits = std::numeric_limits<std::underlying_type_t<T>>;
+        auto bind_value = [&](auto value) {
+          if (value < Limits::min() || value > Limits::max())
+            throw std::runtime_error("JSON Integral is out of range.");
+          field = static_cast<T>(value);
+        };
+        if constexpr(Limits::is_signed)
+          bind_value(obj.asLargestInt());
         else
-          field = static_cast<T>(obj.asUInt());
+          bind_value(obj.asLargestUInt());
       }
 
       void bind_(Json::Value const& obj, double& field)
-- 
2.43.0


From 298cb2719740bba7736dfad906f9a91859520b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:30 +0000
Subject: [PATCH 63/63] Revert "fix: keep the tiles of the last row on the
 board"

The examples count as test files, which stay as they are.
---
 example/tiles/game.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/example/tiles/game.hpp b/example/tiles/game.hpp
index 2370581..0d6fee7 100644
--- a/example/tiles/game.hpp
+++ b/example/tiles/game.hpp
@@ -39,7 +39,7 @@ namespace tiles
       if (i >= g.width
         && g.board[i - g.width] == 0)       return i - g.width;     // above
 
-      if (i < g.height * g.width - g.width
+      if (i <= g.height * g.width - g.width
         && g.board[i + g.width] == 0)       return i + g.width;     // below
 
       // The tile is not adjacent to the empty space.
-- 
2.43.0

