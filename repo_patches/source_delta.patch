From 960a13cad60529334e316bc1a06e671eba5ac5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:04:19 +0000
Subject: [PATCH 01/37] fix: close the socket of a peer refused by the firewall

---
 libiqxmlrpc/acceptor.cc | 28 ++++++++++++++++++----------
 libiqxmlrpc/socket.cc   |  2 --
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/libiqxmlrpc/acceptor.cc b/libiqxmlrpc/acceptor.cc
index 535abaa..7c03a56 100644
--- a/libiqxmlrpc/acceptor.cc
+++ b/libiqxmlrpc/acceptor.cc
@@ -53,18 +53,26 @@ void Acceptor::accept()
 {
   Socket new_sock( sock.accept() );
 
-  if( firewall && !firewall->grant( new_sock.get_peer_addr() ) )
-  {
-    std::string msg = firewall->message();
-
-    if (!msg.empty())
+  try {
+    if( firewall && !firewall->grant( new_sock.get_peer_addr() ) )
     {
-      new_sock.send_shutdown(msg.c_str(), msg.size());
-    } else {
-      new_sock.shutdown();
-    }
+      std::string msg = firewall->message();
+
+      if (!msg.empty())
+      {
+        new_sock.send_shutdown(msg.c_str(), msg.size());
+      } else {
+        new_sock.shutdown();
+      }
 
-    return;
+      new_sock.close();
+      return;
+    }
+  }
+  catch( ... )
+  {
+    new_sock.close();
+    throw;
   }
 
   factory->create_accepted( new_sock );
diff --git a/libiqxmlrpc/socket.cc b/libiqxmlrpc/socket.cc
index ea3463f..26eee96 100644
--- a/libiqxmlrpc/socket.cc
+++ b/libiqxmlrpc/socket.cc
@@ -96,8 +96,6 @@ size_t Socket::recv( char* buf, size_t len )
 void Socket::send_shutdown( const char* data, size_t len )
 {
   send(data, len);
-  const struct linger ling = {1, 0};
-  ::setsockopt( sock, SOL_SOCKET, SO_LINGER, reinterpret_cast<const char*>(&ling), sizeof(ling) );
   ::shutdown( sock, 1 );
 }
 
-- 
2.43.0


From b4bfe3bcecdaf3b419fd87155ae7f2df8ae0400b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:17:53 +0000
Subject: [PATCH 02/37] fix: do not build a string from an absent OpenSSL error
 text

---
 libiqxmlrpc/ssl_lib.cc | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/libiqxmlrpc/ssl_lib.cc b/libiqxmlrpc/ssl_lib.cc
index 2348a38..9020a66 100644
--- a/libiqxmlrpc/ssl_lib.cc
+++ b/libiqxmlrpc/ssl_lib.cc
@@ -260,9 +260,21 @@ Ctx::prepare_verify(SSL* ssl, bool server)
 }
 
 // ----------------------------------------------------------------------------
+namespace {
+
+std::string
+reason_string(unsigned long err)
+{
+  // openssl has no text for zero and for codes it does not know
+  const char* reason = ERR_reason_error_string(err);
+  return reason ? reason : "unknown error";
+}
+
+} // anonymous namespace
+
 exception::exception() throw():
   ssl_err( ERR_get_error() ),
-  msg( ERR_reason_error_string(ssl_err) )
+  msg( reason_string(ssl_err) )
 {
   msg.insert(0, "SSL: ");
 }
@@ -270,7 +282,7 @@ exception::exception() throw():
 
 exception::exception( unsigned long err ) throw():
   ssl_err(err),
-  msg( ERR_reason_error_string(ssl_err) )
+  msg( reason_string(ssl_err) )
 {
   msg.insert(0, "SSL: ");
 }
-- 
2.43.0


From bd6a041a4060a5d8f82a1a254112fa7779742d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:18:47 +0000
Subject: [PATCH 03/37] fix: a failing incoming connection no longer stops the
 server loop

---
 libiqxmlrpc/acceptor.cc | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/libiqxmlrpc/acceptor.cc b/libiqxmlrpc/acceptor.cc
index 7c03a56..32066bb 100644
--- a/libiqxmlrpc/acceptor.cc
+++ b/libiqxmlrpc/acceptor.cc
@@ -8,6 +8,7 @@
 #include "firewall.h"
 #include "inet_addr.h"
 #include "net_except.h"
+#include "ssl_lib.h"
 
 using namespace iqnet;
 
@@ -39,7 +40,17 @@ void Acceptor::set_firewall( iqnet::Firewall_base* fw )
 
 void Acceptor::handle_input( bool& )
 {
-  accept();
+  try {
+    accept();
+  }
+  catch( const ssl::not_initialized& )
+  {
+    throw;
+  }
+  catch( const std::exception& )
+  {
+    // one failed connection must not stop the listener
+  }
 }
 
 
-- 
2.43.0


From c78395332790043d926f7617252c5b0479a93b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:49:27 +0000
Subject: [PATCH 04/37] fix: announce continuation for every request of a
 connection that expects it

---
 libiqxmlrpc/http.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libiqxmlrpc/http.cc b/libiqxmlrpc/http.cc
index 88dc6ad..7ce68f2 100644
--- a/libiqxmlrpc/http.cc
+++ b/libiqxmlrpc/http.cc
@@ -412,6 +412,7 @@ void Packet_reader::clear()
   header_cache.erase();
   constructed = false;
   total_sz = 0;
+  continue_sent_ = false;
 }
 
 void Packet_reader::check_sz( size_t sz )
-- 
2.43.0


From 08f3cf6f291a742cacb3eca9805dfb35e8b2199f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:14:17 +0000
Subject: [PATCH 05/37] fix: stop reading a connection once a request on it was
 refused

---
 libiqxmlrpc/http_server.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libiqxmlrpc/http_server.cc b/libiqxmlrpc/http_server.cc
index 7353515..8e2110a 100644
--- a/libiqxmlrpc/http_server.cc
+++ b/libiqxmlrpc/http_server.cc
@@ -98,6 +98,7 @@ void Http_server_connection::handle_input( bool& terminate )
   {
     // Close connection after sending HTTP error response
     keep_alive = false;
+    reactor->unregister_handler( this, Reactor_base::INPUT );
     schedule_response( new http::Packet(e) );
   }
 }
-- 
2.43.0


From d64aac769d79ff720a4744cdae05a316e199fcd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:36:56 +0000
Subject: [PATCH 06/37] fix: look at the reactor's handler table only under its
 lock

---
 libiqxmlrpc/reactor_impl.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libiqxmlrpc/reactor_impl.h b/libiqxmlrpc/reactor_impl.h
index fd2e4de..ba2197d 100644
--- a/libiqxmlrpc/reactor_impl.h
+++ b/libiqxmlrpc/reactor_impl.h
@@ -280,12 +280,16 @@ bool Reactor<Lock>::handle_system_events(Reactor_base::Timeout ms)
 template <class Lock>
 bool Reactor<Lock>::handle_events(Reactor_base::Timeout ms)
 {
+  scoped_lock lk(lock);
+
   if (handlers.empty())
     return false;
 
   if (handlers.size() - num_stoppers <= 0)
     throw No_handlers();
 
+  lk.unlock();
+
   handle_user_events();
   return handle_system_events(ms);
 }
-- 
2.43.0


From 485af166e22bf4136037509403fd7f8526f96049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:57:11 +0000
Subject: [PATCH 07/37] fix: do not take the pool's locks in opposite orders on
 destruction

---
 libiqxmlrpc/executor.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/libiqxmlrpc/executor.cc b/libiqxmlrpc/executor.cc
index 8a218b1..611c8f5 100644
--- a/libiqxmlrpc/executor.cc
+++ b/libiqxmlrpc/executor.cc
@@ -170,10 +170,12 @@ void Pool_executor_factory::register_executor( Pool_executor* executor )
 
 void Pool_executor_factory::destruction_started()
 {
-  scoped_lock lk(destructor_lock);
-  in_destructor = true;
+  {
+    scoped_lock lk(destructor_lock);
+    in_destructor = true;
+  }
 
-  scoped_lock lk_(req_queue_lock);
+  scoped_lock lk(req_queue_lock);
   req_queue_cond.notify_all();
 }
 
-- 
2.43.0


From 1549b28ccb4047b2dfab586061dbeafc502819d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:57:11 +0000
Subject: [PATCH 08/37] fix: a pool thread that was busy when destruction began
 no longer waits forever

---
 libiqxmlrpc/executor.cc | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/libiqxmlrpc/executor.cc b/libiqxmlrpc/executor.cc
index 611c8f5..25847f2 100644
--- a/libiqxmlrpc/executor.cc
+++ b/libiqxmlrpc/executor.cc
@@ -97,15 +97,13 @@ void Pool_executor_factory::Pool_thread::operator ()()
   {
     scoped_lock lk(pool->req_queue_lock);
 
+    if (pool->is_being_destructed())
+      return;
+
     if (pool->req_queue.empty())
     {
       pool->req_queue_cond.wait(lk);
-
-      if (pool->is_being_destructed())
-        return;
-
-      if (pool->req_queue.empty())
-        continue;
+      continue;
     }
 
     Pool_executor* executor = pool->req_queue.front();
-- 
2.43.0


From 955beec98f75b2a0b1871d808a848bba7665988d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:40:25 +0000
Subject: [PATCH 09/37] fix: do not reuse a kept-alive client connection after
 a failed call

---
 libiqxmlrpc/client.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/libiqxmlrpc/client.cc b/libiqxmlrpc/client.cc
index a2ffe2b..3208d3b 100644
--- a/libiqxmlrpc/client.cc
+++ b/libiqxmlrpc/client.cc
@@ -137,7 +137,15 @@ Response Client_base::execute(
   Auto_conn conn( *impl_.get(), *this );
   conn->set_options(impl_->opts);
 
-  return conn->process_session( req, xheaders );
+  try {
+    return conn->process_session( req, xheaders );
+  }
+  catch( ... ) {
+    // The state of the connection is unknown: a late response to this
+    // request must not be taken for the response to the next one.
+    impl_->conn_cache.reset();
+    throw;
+  }
 }
 
 } // namespace iqxmlrpc
-- 
2.43.0


From cd38509a0332949c1845741d75843bef866299d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:40:25 +0000
Subject: [PATCH 10/37] fix: apply the client options to the TLS session inside
 a proxy tunnel

---
 libiqxmlrpc/https_client.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libiqxmlrpc/https_client.cc b/libiqxmlrpc/https_client.cc
index e7e860e..a6d07b2 100644
--- a/libiqxmlrpc/https_client.cc
+++ b/libiqxmlrpc/https_client.cc
@@ -56,6 +56,7 @@ http::Packet* Https_proxy_client_connection::do_process_session( const std::stri
   setup_tunnel();
 
   Https_client_connection https_conn(sock, non_blocking);
+  https_conn.set_options(opts());
   https_conn.post_connect();
 
   return https_conn.do_process_session(s);
-- 
2.43.0


From 530cded2295bb2f5f103c46d13cca6143846a4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:40:25 +0000
Subject: [PATCH 11/37] fix: raise Fault when the value of a fault response is
 read

---
 libiqxmlrpc/response.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libiqxmlrpc/response.cc b/libiqxmlrpc/response.cc
index 40b13b3..14a616f 100644
--- a/libiqxmlrpc/response.cc
+++ b/libiqxmlrpc/response.cc
@@ -63,7 +63,7 @@ Response::Response( int fcode, const std::string& fstring ):
 const Value& Response::value() const
 {
   if( is_fault() )
-    throw iqxmlrpc::Exception( fault_string_, fault_code_ );
+    throw Fault( fault_code_, fault_string_ );
 
   return *value_;
 }
-- 
2.43.0


From c952dd6c7929fedaf630e667c24a6a2c208984a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:51:46 +0000
Subject: [PATCH 12/37] fix: limit the nesting of parsed documents

---
 libiqxmlrpc/parser2.cc | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/libiqxmlrpc/parser2.cc b/libiqxmlrpc/parser2.cc
index afdd7f1..3229e29 100644
--- a/libiqxmlrpc/parser2.cc
+++ b/libiqxmlrpc/parser2.cc
@@ -101,7 +101,8 @@ class Parser::Impl {
 public:
   Impl(const std::string& str):
     buf(str),
-    pushed_back(false)
+    pushed_back(false),
+    nesting(0)
   {
     const char* buf2 = str.data();
     int sz = static_cast<int>(str.size());
@@ -221,8 +222,37 @@ public:
   xmlTextReaderPtr reader;
   ParseStep curr;
   bool pushed_back;
+  int nesting;
 };
 
+namespace {
+
+// Builders parse nested values recursively: limit the nesting
+// to not let a document exhaust the stack.
+const int max_nesting = 1000;
+
+class NestingGuard {
+public:
+  NestingGuard(int& n):
+    nesting(n)
+  {
+    if (nesting >= max_nesting)
+      throw XML_RPC_violation("document is nested too deeply");
+
+    ++nesting;
+  }
+
+  ~NestingGuard()
+  {
+    --nesting;
+  }
+
+private:
+  int& nesting;
+};
+
+} // nameless namespace
+
 Parser::Parser(const std::string& buf):
   impl_(new Parser::Impl(buf))
 {
@@ -231,6 +261,8 @@ Parser::Parser(const std::string& buf):
 void
 Parser::parse(BuilderBase& builder)
 {
+  NestingGuard guard(impl_->nesting);
+
   for (Impl::ParseStep p = impl_->read(); !p.done; p = impl_->read()) {
     if (p.element_begin) {
       builder.visit_element(impl_->tag_name());
-- 
2.43.0


From 2de97ece596090b2e6f5699b7569b46e31671a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:00:24 +0000
Subject: [PATCH 13/37] fix: report a failed flush of a generated document

---
 libiqxmlrpc/xml_builder.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libiqxmlrpc/xml_builder.cc b/libiqxmlrpc/xml_builder.cc
index 7389673..d3df8c9 100644
--- a/libiqxmlrpc/xml_builder.cc
+++ b/libiqxmlrpc/xml_builder.cc
@@ -76,7 +76,7 @@ XmlBuilder::stop()
 std::string
 XmlBuilder::content() const
 {
-  xmlTextWriterFlush(writer);
+  throwBuildError(xmlTextWriterFlush(writer), -1);
   const char* cdata = reinterpret_cast<const char*>(xmlBufferContent(buf));
   return std::string(cdata, buf->use);
 }
-- 
2.43.0


From 13f43a1957cd9c4f1c8353e55baaf6cba17e0547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:15:59 +0000
Subject: [PATCH 14/37] fix: free the member erased from a struct

---
 libiqxmlrpc/value_type.cc | 12 ++++++++++++
 libiqxmlrpc/value_type.h  |  2 +-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/libiqxmlrpc/value_type.cc b/libiqxmlrpc/value_type.cc
index b35fb36..bf6e3ab 100644
--- a/libiqxmlrpc/value_type.cc
+++ b/libiqxmlrpc/value_type.cc
@@ -318,6 +318,18 @@ void Struct::insert( const std::string& f, const Value& val )
 }
 
 
+void Struct::erase( const std::string& key )
+{
+  iterator i = values.find(key);
+
+  if( i == values.end() )
+    return;
+
+  delete i->second;
+  values.erase(i);
+}
+
+
 // ----------------------------------------------------------------------------
 const char Binary_data::base64_alpha[64] = {
   'A', 'B', 'C', 'D', 'E', 'F', 'G', 'H', 'I', 'J', 'K', 'L', 'M',
diff --git a/libiqxmlrpc/value_type.h b/libiqxmlrpc/value_type.h
index e6650be..9e2f5fb 100644
--- a/libiqxmlrpc/value_type.h
+++ b/libiqxmlrpc/value_type.h
@@ -249,7 +249,7 @@ public:
   const_iterator find( const std::string& key ) const { return values.find(key); }
   iterator find( const std::string& key ) { return values.find(key); }
 
-  void erase( const std::string& key ) { values.erase(key); }
+  void erase( const std::string& key );
 };
 
 #ifdef _MSC_VER
-- 
2.43.0


From a02900c07f36ed9e7b6438f539e6f20e0cc88ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:00:34 +0000
Subject: [PATCH 15/37] fix: read what follows a nil value

A nil element was left open by the value parser, so the parsers around
it lost count of the open elements: an array or a parameter list ended
too early, and a struct member after a nil one was refused.
---
 libiqxmlrpc/value_parser.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/libiqxmlrpc/value_parser.cc b/libiqxmlrpc/value_parser.cc
index 49159a6..7190e9f 100644
--- a/libiqxmlrpc/value_parser.cc
+++ b/libiqxmlrpc/value_parser.cc
@@ -163,10 +163,12 @@ ValueBuilder::do_visit_element(const std::string& tagname)
   switch (state_.change(tagname)) {
   case STRUCT:
     retval.reset(sub_build<Value_type*, StructBuilder>(true));
+    want_exit();
     break;
 
   case ARRAY:
     retval.reset(sub_build<Value_type*, ArrayBuilder>(true));
+    want_exit();
     break;
 
   case NIL:
@@ -177,9 +179,6 @@ ValueBuilder::do_visit_element(const std::string& tagname)
     // wait for text within <i4>...</i4>, etc...
     break;
   }
-
-  if (retval.get())
-    want_exit();
 }
 
 void
-- 
2.43.0


From fcf6f90ba473b823551da31307cda1633d7432ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:09:54 +0000
Subject: [PATCH 16/37] fix: keep count of elements after an empty member name

The end of an empty name (or method name) element was swallowed, so the
parser of a struct with an empty member name missed the end of the
struct and went on with what follows it.
---
 libiqxmlrpc/parser2.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libiqxmlrpc/parser2.cc b/libiqxmlrpc/parser2.cc
index 3229e29..95812b0 100644
--- a/libiqxmlrpc/parser2.cc
+++ b/libiqxmlrpc/parser2.cc
@@ -203,7 +203,12 @@ public:
     if (!curr.is_text && !curr.element_end)
     {
       read();
-      if (!curr.is_text && !curr.element_end) {
+      if (curr.element_end) {
+        // let builder see the end of an empty element
+        pushed_back = true;
+        return std::string();
+      }
+      if (!curr.is_text) {
         std::string err = "text is expected at " + get_context();
         throw XML_RPC_violation(err);
       }
-- 
2.43.0


From ce086c3012406a45844b0ab25b2595e39187582a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:11:04 +0000
Subject: [PATCH 17/37] fix: accept member names made of white space

A name consisting of white space is not delivered as a text node, so a
struct with such a member was written but refused when read back.
---
 libiqxmlrpc/parser2.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libiqxmlrpc/parser2.cc b/libiqxmlrpc/parser2.cc
index 95812b0..cf231c2 100644
--- a/libiqxmlrpc/parser2.cc
+++ b/libiqxmlrpc/parser2.cc
@@ -208,7 +208,7 @@ public:
         pushed_back = true;
         return std::string();
       }
-      if (!curr.is_text) {
+      if (!curr.is_text && node_type() != XML_READER_TYPE_SIGNIFICANT_WHITESPACE) {
         std::string err = "text is expected at " + get_context();
         throw XML_RPC_violation(err);
       }
-- 
2.43.0


From 5087babd400901c3bba73f5f1f294ae225691616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:12:23 +0000
Subject: [PATCH 18/37] fix: free the value of a struct member when its
 document is refused

The value of a member whose end is never read was only held by a plain
pointer.
---
 libiqxmlrpc/value_parser.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/libiqxmlrpc/value_parser.cc b/libiqxmlrpc/value_parser.cc
index 7190e9f..7c14ca2 100644
--- a/libiqxmlrpc/value_parser.cc
+++ b/libiqxmlrpc/value_parser.cc
@@ -19,8 +19,7 @@ class StructBuilder: public ValueBuilderBase {
 public:
   StructBuilder(Parser& parser):
     ValueBuilderBase(parser),
-    state_(parser, NONE),
-    value_(0)
+    state_(parser, NONE)
   {
     static const StateMachine::StateTransition trans[] = {
       { NONE, MEMBER, "member" },
@@ -49,8 +48,9 @@ private:
       break;
 
     case VALUE_READ:
-      value_ = sub_build<Value_type*, ValueBuilder>();
-      value_ = value_ ? value_ : new String("");
+      value_.reset(sub_build<Value_type*, ValueBuilder>());
+      if (!value_.get())
+        value_.reset(new String(""));
       break;
 
     case MEMBER:
@@ -69,7 +69,7 @@ private:
         throw XML_RPC_violation(parser_.context());
       }
 
-      Value_ptr v(new Value(value_));
+      Value_ptr v(new Value(value_.release()));
       proxy_->insert(name_, v);
       state_.set_state(NONE);
     }
@@ -77,7 +77,7 @@ private:
 
   StateMachine state_;
   std::string name_;
-  Value_type* value_;
+  std::auto_ptr<Value_type> value_;
   Struct* proxy_;
 };
 
-- 
2.43.0


From 800d202dd0e360029d70ef3c67ce8e341f136c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:12:23 +0000
Subject: [PATCH 19/37] fix: do not leak the default of an empty i8 element

---
 libiqxmlrpc/value_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libiqxmlrpc/value_parser.cc b/libiqxmlrpc/value_parser.cc
index 7c14ca2..10ad36d 100644
--- a/libiqxmlrpc/value_parser.cc
+++ b/libiqxmlrpc/value_parser.cc
@@ -205,7 +205,7 @@ ValueBuilder::do_visit_element_end(const std::string&)
 
   case INT64:
     if (default_int64.get()) {
-      retval.reset(new Int64(default_int64.release()->value()));
+      retval.reset(default_int64.release());
       break;
     }
     throw XML_RPC_violation(parser_.context());
-- 
2.43.0


From 1b65bfb05e9034d84ce776daef3785e5fedb94ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:43:39 +0000
Subject: [PATCH 20/37] fix: do not use a TLS context that could not be created

---
 libiqxmlrpc/ssl_lib.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libiqxmlrpc/ssl_lib.cc b/libiqxmlrpc/ssl_lib.cc
index 9020a66..0d2ba06 100644
--- a/libiqxmlrpc/ssl_lib.cc
+++ b/libiqxmlrpc/ssl_lib.cc
@@ -128,6 +128,9 @@ namespace {
 void
 set_common_options(SSL_CTX* ctx)
 {
+  if (!ctx)
+    throw exception();
+
   SSL_CTX_set_options(ctx, SSL_OP_NO_SSLv2 | SSL_OP_NO_SSLv3);
 }
 
-- 
2.43.0


From e3ff4609370930c4008145226e6a0e273c33486c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:43:39 +0000
Subject: [PATCH 21/37] fix: enforce a required client certificate when there
 is no verifier

---
 libiqxmlrpc/ssl_lib.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libiqxmlrpc/ssl_lib.cc b/libiqxmlrpc/ssl_lib.cc
index 0d2ba06..5d623d9 100644
--- a/libiqxmlrpc/ssl_lib.cc
+++ b/libiqxmlrpc/ssl_lib.cc
@@ -252,7 +252,7 @@ Ctx::prepare_verify(SSL* ssl, bool server)
   int mode = v ? SSL_VERIFY_PEER : SSL_VERIFY_NONE;
 
   if (server && impl_->require_client_cert)
-    mode |= SSL_VERIFY_FAIL_IF_NO_PEER_CERT;
+    mode |= SSL_VERIFY_PEER | SSL_VERIFY_FAIL_IF_NO_PEER_CERT;
 
   if (v) {
     SSL_set_verify(ssl, mode, iqxmlrpc_SSL_verify);
-- 
2.43.0


From f105f0d5f8bbdf10d3067bf447026e16bfd08c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:43:39 +0000
Subject: [PATCH 22/37] fix: close the sockets of the reactor interrupter

---
 libiqxmlrpc/reactor_interrupter.cc | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/libiqxmlrpc/reactor_interrupter.cc b/libiqxmlrpc/reactor_interrupter.cc
index 7dcaee8..0664785 100644
--- a/libiqxmlrpc/reactor_interrupter.cc
+++ b/libiqxmlrpc/reactor_interrupter.cc
@@ -39,10 +39,22 @@ private:
   Reactor_base* reactor_;
 };
 
+//! Closes a socket at the end of the scope unless it is released.
+class Socket_closer: boost::noncopyable {
+public:
+  explicit Socket_closer(Socket& s): sock_(&s) {}
+  ~Socket_closer() { if (sock_) sock_->close(); }
+
+  void release() { sock_ = 0; }
+
+private:
+  Socket* sock_;
+};
+
 class Reactor_interrupter::Impl: boost::noncopyable {
 public:
   Impl(Reactor_base* reactor);
-  ~Impl() {}
+  ~Impl() { client_.close(); }
 
   void make_interrupt();
 
@@ -55,7 +67,10 @@ private:
 
 Reactor_interrupter::Impl::Impl(Reactor_base* reactor)
 {
+  Socket_closer client_closer(client_);
+
   Socket srv;
+  Socket_closer srv_closer(srv);
   srv.bind(Inet_addr("127.0.0.1", 0)); // bind to port 0, which means any port beyond 1024
   srv.listen(1);
 
@@ -64,6 +79,7 @@ Reactor_interrupter::Impl::Impl(Reactor_base* reactor)
   Socket srv_conn(srv.accept());
 
   server_.reset(new Interrupter_connection(reactor, srv_conn));
+  client_closer.release();
 }
 
 void Reactor_interrupter::Impl::make_interrupt()
-- 
2.43.0


From 826bf3dbc357e96a0fb74a9ec33676355996ee3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:43:39 +0000
Subject: [PATCH 23/37] fix: close the listening socket if binding or listening
 fails

---
 libiqxmlrpc/acceptor.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/libiqxmlrpc/acceptor.cc b/libiqxmlrpc/acceptor.cc
index 32066bb..688ff3e 100644
--- a/libiqxmlrpc/acceptor.cc
+++ b/libiqxmlrpc/acceptor.cc
@@ -18,9 +18,16 @@ Acceptor::Acceptor( const iqnet::Inet_addr& bind_addr, Accepted_conn_factory* fa
   reactor(reactor_),
   firewall(0)
 {
-  sock.bind( bind_addr );
-  listen();
-  reactor->register_handler( this, Reactor_base::INPUT );
+  try {
+    sock.bind( bind_addr );
+    listen();
+    reactor->register_handler( this, Reactor_base::INPUT );
+  }
+  catch( ... )
+  {
+    sock.close();
+    throw;
+  }
 }
 
 
-- 
2.43.0


From 08ac834c30ef29872916b279b7292889bae2c65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:43:39 +0000
Subject: [PATCH 24/37] fix: do not leak an accepted connection whose start
 fails

---
 libiqxmlrpc/conn_factory.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libiqxmlrpc/conn_factory.h b/libiqxmlrpc/conn_factory.h
index 620ad62..6ba05e3 100644
--- a/libiqxmlrpc/conn_factory.h
+++ b/libiqxmlrpc/conn_factory.h
@@ -6,6 +6,8 @@
 
 #include "inet_addr.h"
 
+#include <memory>
+
 namespace iqnet
 {
 
@@ -23,9 +25,10 @@ class Serial_conn_factory: public Accepted_conn_factory {
 public:
   void create_accepted( const Socket& sock )
   {
-    Conn_type* c = new Conn_type( sock );
-    post_create( c );
+    std::auto_ptr<Conn_type> c( new Conn_type( sock ) );
+    post_create( c.get() );
     c->post_accept();
+    c.release();
   }
 
   virtual void post_create( Conn_type* ) {}
-- 
2.43.0


From 1d96f578608b5dcf63a1b5308f70cea37a64adb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:43:39 +0000
Subject: [PATCH 25/37] fix: close the socket on every failure to connect

---
 libiqxmlrpc/connector.cc | 31 ++++++++++++++++++++-----------
 libiqxmlrpc/connector.h  |  6 ++++--
 2 files changed, 24 insertions(+), 13 deletions(-)

diff --git a/libiqxmlrpc/connector.cc b/libiqxmlrpc/connector.cc
index 83d6626..6204149 100644
--- a/libiqxmlrpc/connector.cc
+++ b/libiqxmlrpc/connector.cc
@@ -19,7 +19,13 @@ struct Connect_processor: public Event_handler {
   Connect_processor(Reactor_base& r):
     reactor(r)
   {
-    sock.set_non_blocking(true);
+    try {
+      sock.set_non_blocking(true);
+    }
+    catch (...) {
+      sock.close();
+      throw;
+    }
   }
 
   Socket::Handler get_handler() const
@@ -32,10 +38,8 @@ struct Connect_processor: public Event_handler {
     terminate = true;
     int err = sock.get_last_error();
 
-    if (err && err != IQXMLRPC_INPROGRESS) {
-      sock.close();
+    if (err && err != IQXMLRPC_INPROGRESS)
       throw network_error("Connector", true, err);
-    }
   }
 };
 
@@ -53,19 +57,24 @@ Connector_base::connect(int timeout)
 {
   Reactor<Null_lock> reactor;
   Connect_processor connector(reactor);
-  bool done = connector.sock.connect( peer_addr );
 
-  if (done)
-    return create_connection( connector.sock );
+  try {
+    bool done = connector.sock.connect( peer_addr );
 
-  reactor.register_handler( &connector, Reactor_base::OUTPUT );
+    if (!done) {
+      reactor.register_handler( &connector, Reactor_base::OUTPUT );
 
-  int ms = timeout > 0 ? timeout*1000 : -1;
-  if (!reactor.handle_events(ms)) {
+      int ms = timeout > 0 ? timeout*1000 : -1;
+      if (!reactor.handle_events(ms))
+        throw iqxmlrpc::Client_timeout();
+    }
+  }
+  catch (...) {
     connector.sock.close();
-    throw iqxmlrpc::Client_timeout();
+    throw;
   }
 
+  // the connection closes the socket from now on
   return create_connection( connector.sock );
 }
 
diff --git a/libiqxmlrpc/connector.h b/libiqxmlrpc/connector.h
index 0c00d53..b79930f 100644
--- a/libiqxmlrpc/connector.h
+++ b/libiqxmlrpc/connector.h
@@ -6,6 +6,8 @@
 
 #include "client_conn.h"
 
+#include <memory>
+
 namespace iqnet {
 
 class LIBIQXMLRPC_API Connector_base {
@@ -35,9 +37,9 @@ private:
   virtual iqxmlrpc::Client_connection*
   create_connection(const Socket& s)
   {
-    Conn_type* c = new Conn_type( s, true );
+    std::auto_ptr<Conn_type> c( new Conn_type( s, true ) );
     c->post_connect();
-    return c;
+    return c.release();
   }
 };
 
-- 
2.43.0


From 2253e9d872f6503e2ad23ee19f3b795f3d982220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:43:39 +0000
Subject: [PATCH 26/37] fix: keep the TLS connection inside a proxy tunnel for
 the life of the tunnel

The socket was closed by the inner connection after each call and again by
the outer one.
---
 libiqxmlrpc/https_client.cc | 22 +++++++++++++++++-----
 libiqxmlrpc/https_client.h  |  4 ++++
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/libiqxmlrpc/https_client.cc b/libiqxmlrpc/https_client.cc
index a6d07b2..a610561 100644
--- a/libiqxmlrpc/https_client.cc
+++ b/libiqxmlrpc/https_client.cc
@@ -51,15 +51,27 @@ Https_proxy_client_connection::Https_proxy_client_connection(
   sock.set_non_blocking( nb );
 }
 
+Https_proxy_client_connection::~Https_proxy_client_connection()
+{
+}
+
 http::Packet* Https_proxy_client_connection::do_process_session( const std::string& s )
 {
-  setup_tunnel();
+  if( !tunnel )
+  {
+    setup_tunnel();
+
+    // The connection inside the tunnel closes the socket from now on.
+    Socket tunnel_sock( sock );
+    sock = Socket( static_cast<Socket::Handler>(-1), sock.get_peer_addr() );
 
-  Https_client_connection https_conn(sock, non_blocking);
-  https_conn.set_options(opts());
-  https_conn.post_connect();
+    tunnel.reset( new Https_client_connection(tunnel_sock, non_blocking) );
+    tunnel->set_options(opts());
+    tunnel->post_connect();
+  }
 
-  return https_conn.do_process_session(s);
+  tunnel->set_options(opts());
+  return tunnel->do_process_session(s);
 }
 
 void Https_proxy_client_connection::setup_tunnel()
diff --git a/libiqxmlrpc/https_client.h b/libiqxmlrpc/https_client.h
index 2295bf2..86a25a6 100644
--- a/libiqxmlrpc/https_client.h
+++ b/libiqxmlrpc/https_client.h
@@ -15,6 +15,8 @@
 namespace iqxmlrpc
 {
 
+class Https_client_connection;
+
 //! XML-RPC \b HTTPS PROXY client connection.
 //! DO NOT USE IT IN YOUR CODE.
 class LIBIQXMLRPC_API Https_proxy_client_connection:
@@ -23,6 +25,7 @@ class LIBIQXMLRPC_API Https_proxy_client_connection:
 {
 public:
   Https_proxy_client_connection( const iqnet::Socket&, bool non_block_flag );
+  ~Https_proxy_client_connection();
 
   void handle_input( bool& );
   void handle_output( bool& );
@@ -36,6 +39,7 @@ protected:
   boost::scoped_ptr<http::Packet> resp_packet;
   bool non_blocking;
   std::string out_str;
+  boost::scoped_ptr<Https_client_connection> tunnel;
 };
 
 //! XML-RPC \b HTTPS client's connection.
-- 
2.43.0


From 4cbbfb6dd7d576444b83bb6aca00b6ee30ce33eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:52:40 +0000
Subject: [PATCH 27/37] fix: fail if the verifier cannot be attached to a TLS
 connection

---
 libiqxmlrpc/ssl_lib.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libiqxmlrpc/ssl_lib.cc b/libiqxmlrpc/ssl_lib.cc
index 5d623d9..69748ae 100644
--- a/libiqxmlrpc/ssl_lib.cc
+++ b/libiqxmlrpc/ssl_lib.cc
@@ -256,7 +256,8 @@ Ctx::prepare_verify(SSL* ssl, bool server)
 
   if (v) {
     SSL_set_verify(ssl, mode, iqxmlrpc_SSL_verify);
-    SSL_set_ex_data(ssl, iqxmlrpc_ssl_data_idx, (void*)v);
+    if (!SSL_set_ex_data(ssl, iqxmlrpc_ssl_data_idx, (void*)v))
+      throw exception();
   } else {
     SSL_set_verify(ssl, mode, 0);
   }
-- 
2.43.0


From d906f7dd0d1ad72a75ad592ab622f6852e8372cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:52:40 +0000
Subject: [PATCH 28/37] fix: do not return the fingerprint of a certificate
 that could not be hashed

---
 libiqxmlrpc/ssl_lib.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libiqxmlrpc/ssl_lib.cc b/libiqxmlrpc/ssl_lib.cc
index 69748ae..a811330 100644
--- a/libiqxmlrpc/ssl_lib.cc
+++ b/libiqxmlrpc/ssl_lib.cc
@@ -170,7 +170,8 @@ ConnectionVerifier::cert_finger_sha256(X509_STORE_CTX* ctx) const
   const EVP_MD* digest = EVP_get_digestbyname("sha256");
   unsigned int n = 0;
   unsigned char md[EVP_MAX_MD_SIZE];
-  X509_digest(x, digest, md, &n);
+  if (!x || !digest || !X509_digest(x, digest, md, &n))
+    throw exception();
 
   std::ostringstream ss;
   for(int i = 0; i < 32; i++)
-- 
2.43.0


From f7c61e9f35d1e10c3ea48c2174011f3c035627f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:52:40 +0000
Subject: [PATCH 29/37] fix: do not take an address whose name was not resolved
 for a resolved one

---
 libiqxmlrpc/inet_addr.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libiqxmlrpc/inet_addr.cc b/libiqxmlrpc/inet_addr.cc
index 21d52bc..d5a6105 100644
--- a/libiqxmlrpc/inet_addr.cc
+++ b/libiqxmlrpc/inet_addr.cc
@@ -92,9 +92,9 @@ Inet_addr::Impl::Impl( const SystemSockAddrIn& s ):
 void
 Inet_addr::Impl::init_sockaddr() const
 {
-  sa = SystemSockAddrIn();
   struct hostent* hent = 0;
   IQXMLRPC_GETHOSTBYNAME(host.c_str());
+  sa = SystemSockAddrIn();
   sa->sin_family = PF_INET;
   sa->sin_port = htons(port);
   memcpy( (char*)&(sa->sin_addr), (char*)hent->h_addr, hent->h_length );
-- 
2.43.0


From 5f50f7019389aaf1c2e1d5da7884b8894c27a1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:52:40 +0000
Subject: [PATCH 30/37] fix: report a failure to get the host name

---
 libiqxmlrpc/inet_addr.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libiqxmlrpc/inet_addr.cc b/libiqxmlrpc/inet_addr.cc
index d5a6105..37b5e29 100644
--- a/libiqxmlrpc/inet_addr.cc
+++ b/libiqxmlrpc/inet_addr.cc
@@ -11,7 +11,9 @@ std::string get_host_name()
 {
   char buf[1024];
   buf[1023] = 0;
-  ::gethostname( buf, sizeof(buf) );
+
+  if( ::gethostname( buf, sizeof(buf) ) == -1 )
+    throw network_error( "gethostname" );
 
   return buf;
 }
-- 
2.43.0


From 21c65ea69523c339a820f7b06317af8420949f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:52:40 +0000
Subject: [PATCH 31/37] fix: report a failure to get the error of a socket

---
 libiqxmlrpc/socket.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libiqxmlrpc/socket.cc b/libiqxmlrpc/socket.cc
index 26eee96..48738d2 100644
--- a/libiqxmlrpc/socket.cc
+++ b/libiqxmlrpc/socket.cc
@@ -163,7 +163,8 @@ int Socket::get_last_error()
   int err = 0;
 #ifndef WIN32
   socklen_t int_sz = sizeof(err);
-  ::getsockopt( sock, SOL_SOCKET, SO_ERROR, &err, &int_sz );
+  if( ::getsockopt( sock, SOL_SOCKET, SO_ERROR, &err, &int_sz ) == -1 )
+    err = errno;
 #else
   err=WSAGetLastError();
 #endif
-- 
2.43.0


From 90feb896c57a23577cec70756b0d03b1bdd8c81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:52:40 +0000
Subject: [PATCH 32/37] fix: wait again after a signal interrupted waiting for
 events

The wait ended as if there were events: a connection in progress was taken
for an established one, and with select all descriptors for ready ones.
---
 libiqxmlrpc/reactor_poll_impl.cc   | 5 +++--
 libiqxmlrpc/reactor_select_impl.cc | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/libiqxmlrpc/reactor_poll_impl.cc b/libiqxmlrpc/reactor_poll_impl.cc
index 13bedc4..68811fe 100644
--- a/libiqxmlrpc/reactor_poll_impl.cc
+++ b/libiqxmlrpc/reactor_poll_impl.cc
@@ -44,7 +44,7 @@ void Reactor_poll_impl::reset(const HandlerStateList& in)
 
 bool Reactor_poll_impl::poll(HandlerStateList& out, Reactor_base::Timeout to_ms)
 {
-  do {
+  for (;;) {
     int code = ::poll( &impl->pfd[0], impl->pfd.size(), to_ms );
 
     if( code < 0 )
@@ -58,7 +58,8 @@ bool Reactor_poll_impl::poll(HandlerStateList& out, Reactor_base::Timeout to_ms)
     if( !code )
       return false;
 
-  } while (false);
+    break;
+  }
 
   for( unsigned i = 0; i < impl->pfd.size(); i++ )
   {
diff --git a/libiqxmlrpc/reactor_select_impl.cc b/libiqxmlrpc/reactor_select_impl.cc
index 77e33f8..32773e4 100644
--- a/libiqxmlrpc/reactor_select_impl.cc
+++ b/libiqxmlrpc/reactor_select_impl.cc
@@ -50,7 +50,7 @@ bool Reactor_select_impl::poll(HandlerStateList& out, Reactor_base::Timeout to_m
     ptv = &tv;
   }
 
-  do {
+  for (;;) {
     int code = ::select( static_cast<int>(max_fd+1), &read_set, &write_set, &err_set, ptv );
 
     if( code < 0 )
@@ -64,7 +64,8 @@ bool Reactor_select_impl::poll(HandlerStateList& out, Reactor_base::Timeout to_m
     if( !code )
       return false;
 
-  } while (false);
+    break;
+  }
 
   for( HandlerStateList::const_iterator i = hs.begin(); i != hs.end(); ++i )
   {
-- 
2.43.0


From 73f5e70a64da60c64fbcb5434aabe4c754c180a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:07:40 +0000
Subject: [PATCH 33/37] fix: keep every word of the phrase of an HTTP response

A response line such as "HTTP/1.1 404 Not Found" is split at spaces, and only
the first word after the status was kept. The error raised by the client then
said "Not" instead of "Not Found".
---
 libiqxmlrpc/http.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/libiqxmlrpc/http.cc b/libiqxmlrpc/http.cc
index 7ce68f2..dac1790 100644
--- a/libiqxmlrpc/http.cc
+++ b/libiqxmlrpc/http.cc
@@ -349,8 +349,13 @@ Response_header::Response_header(Verification_level lev, const std::string& to_p
     code_ = 0;
   }
 
-  if (resp_line.size() > 2)
-    phrase_ = resp_line[2];
+  // the phrase may consist of several words
+  for (size_t i = 2; i < resp_line.size(); ++i) {
+    if (i > 2)
+      phrase_ += " ";
+
+    phrase_ += resp_line[i];
+  }
 }
 
 Response_header::Response_header( int c, const std::string& p ):
-- 
2.43.0


From 30c77fd2138be2d066d2fa149690bae59b83472f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:15:38 +0000
Subject: [PATCH 34/37] fix: destroy the factory of a method that is registered
 again

---
 libiqxmlrpc/dispatcher_manager.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libiqxmlrpc/dispatcher_manager.cc b/libiqxmlrpc/dispatcher_manager.cc
index 1794be5..29c65ea 100644
--- a/libiqxmlrpc/dispatcher_manager.cc
+++ b/libiqxmlrpc/dispatcher_manager.cc
@@ -41,7 +41,11 @@ Default_method_dispatcher::~Default_method_dispatcher()
 void Default_method_dispatcher::register_method
   ( const std::string& name, Method_factory_base* fb )
 {
-  fs[name] = fb;
+  Method_factory_base*& factory = fs[name];
+  if( factory != fb )
+    delete factory;
+
+  factory = fb;
 }
 
 Method* Default_method_dispatcher::do_create_method(const std::string& name)
-- 
2.43.0


From 9a3ab12590e3d35d5c0278f3e9953fbd472951ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:40:59 +0000
Subject: [PATCH 35/37] fix: name the allowed method in 405 responses

---
 libiqxmlrpc/http_errors.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libiqxmlrpc/http_errors.h b/libiqxmlrpc/http_errors.h
index ca7261c..a57ddd6 100644
--- a/libiqxmlrpc/http_errors.h
+++ b/libiqxmlrpc/http_errors.h
@@ -32,7 +32,7 @@ public:
   Method_not_allowed():
     Error_response( "Method not allowed", 405 )
   {
-    header_->set_option( "allowed:", "POST" );
+    header_->set_option( "allow", "POST" );
   }
 };
 
-- 
2.43.0


From 1bae5b806fc890917076d9aa67589fc70cf34b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:23:33 +0000
Subject: [PATCH 36/37] fix: refuse base64 text with data after its padding in
 a group of four

---
 libiqxmlrpc/value_type.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libiqxmlrpc/value_type.cc b/libiqxmlrpc/value_type.cc
index bf6e3ab..ea75bb0 100644
--- a/libiqxmlrpc/value_type.cc
+++ b/libiqxmlrpc/value_type.cc
@@ -462,6 +462,9 @@ inline void Binary_data::decode_four( const std::string& four )
   if( c1 == '=' || c2 == '=' )
     throw Malformed_base64();
 
+  if( c3 == '=' && c4 != '=' )
+    throw Malformed_base64();
+
   try {
     unsigned pair = get_idx(c1) << 6 | get_idx(c2);
     data += char(pair >> 4 & 0xff);
-- 
2.43.0


From cdf6f1f6a76b092f8c9c1a8ae837e7b035ab3f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:39:46 +0000
Subject: [PATCH 37/37] fix: refuse date texts with misplaced or missing digits
 and separators

---
 libiqxmlrpc/value_type.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/libiqxmlrpc/value_type.cc b/libiqxmlrpc/value_type.cc
index ea75bb0..21cde3d 100644
--- a/libiqxmlrpc/value_type.cc
+++ b/libiqxmlrpc/value_type.cc
@@ -540,12 +540,15 @@ Date_time::Date_time( bool use_lt )
 
 Date_time::Date_time( const std::string& s )
 {
-  if( s.length() != 17 || s[8] != 'T' )
+  const std::string form = "00000000T00:00:00";
+  if( s.length() != form.length() )
     throw Malformed_iso8601();
 
-  char alpha[] = "0123456789T:";
-  if( s.substr(0, 16).find_first_not_of(alpha) != std::string::npos )
-    throw Malformed_iso8601();
+  for( size_t i = 0; i < form.length(); ++i )
+  {
+    if( form[i] == '0' ? !(s[i] >= '0' && s[i] <= '9') : s[i] != form[i] )
+      throw Malformed_iso8601();
+  }
 
   tm_.tm_year = atoi( s.substr(0, 4).c_str() ) - 1900;
   tm_.tm_mon  = atoi( s.substr(4, 2).c_str() ) - 1;
-- 
2.43.0

