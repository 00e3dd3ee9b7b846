From 3ed1066b21aea88811742dbf5c24a9040fdeb83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:00:11 +0000
Subject: [PATCH 01/43] fix: encode bytes above 0x7f to base64 without shifting
 negative values

---
 libiqxmlrpc/value_type.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libiqxmlrpc/value_type.cc b/libiqxmlrpc/value_type.cc
index b35fb36..489e0ef 100644
--- a/libiqxmlrpc/value_type.cc
+++ b/libiqxmlrpc/value_type.cc
@@ -380,7 +380,7 @@ inline void Binary_data::add_base64_char( int idx ) const
 
 void Binary_data::encode() const
 {
-  const char* d = data.data();
+  const unsigned char* d = reinterpret_cast<const unsigned char*>(data.data());
   size_t dsz = data.length();
 
   for( size_t i = 0; i < dsz; i += 3 )
-- 
2.43.0


From b646cb4edb4e2fed608545ec63562f241c1e0d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:00:36 +0000
Subject: [PATCH 02/43] fix: reject date-times that are not of the exact ISO
 8601 form

---
 libiqxmlrpc/value_type.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/libiqxmlrpc/value_type.cc b/libiqxmlrpc/value_type.cc
index 489e0ef..007033a 100644
--- a/libiqxmlrpc/value_type.cc
+++ b/libiqxmlrpc/value_type.cc
@@ -523,13 +523,14 @@ Date_time::Date_time( bool use_lt )
 }
 
 
-Date_time::Date_time( const std::string& s )
+Date_time::Date_time( const std::string& s ):
+  tm_()
 {
-  if( s.length() != 17 || s[8] != 'T' )
+  if( s.length() != 17 || s[8] != 'T' || s[11] != ':' || s[14] != ':' )
     throw Malformed_iso8601();
 
-  char alpha[] = "0123456789T:";
-  if( s.substr(0, 16).find_first_not_of(alpha) != std::string::npos )
+  std::string digits = s.substr(0, 8) + s.substr(9, 2) + s.substr(12, 2) + s.substr(15, 2);
+  if( digits.find_first_not_of("0123456789") != std::string::npos )
     throw Malformed_iso8601();
 
   tm_.tm_year = atoi( s.substr(0, 4).c_str() ) - 1900;
-- 
2.43.0


From 49fc351542fe9c687e38efeb357173a51a3d02af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:01:15 +0000
Subject: [PATCH 03/43] fix: reject base64 text with misplaced padding

---
 libiqxmlrpc/value_type.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libiqxmlrpc/value_type.cc b/libiqxmlrpc/value_type.cc
index 007033a..c36d9f5 100644
--- a/libiqxmlrpc/value_type.cc
+++ b/libiqxmlrpc/value_type.cc
@@ -447,7 +447,7 @@ inline void Binary_data::decode_four( const std::string& four )
   char c3 = four[2];
   char c4 = four[3];
 
-  if( c1 == '=' || c2 == '=' )
+  if( c1 == '=' || c2 == '=' || (c3 == '=' && c4 != '=') )
     throw Malformed_base64();
 
   try {
@@ -471,16 +471,21 @@ void Binary_data::decode()
   const char* d = base64.data();
   size_t dsz = base64.length();
   std::string four;
+  bool padded = false;
 
   for( size_t i = 0; i < dsz; i++ )
   {
     if( isspace( d[i] ) )
       continue;
 
+    if( padded )
+      throw Malformed_base64();
+
     four += d[i];
     if( four.length() == 4 )
     {
       decode_four( four );
+      padded = four[3] == '=';
       four.erase();
     }
   }
-- 
2.43.0


From 5fd330730091d98d417a67f1d38578d51ee438b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:02:29 +0000
Subject: [PATCH 04/43] fix: keep parsing after a nil inside an array, struct
 or parameter list

---
 libiqxmlrpc/value_parser.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libiqxmlrpc/value_parser.cc b/libiqxmlrpc/value_parser.cc
index 49159a6..2aaad40 100644
--- a/libiqxmlrpc/value_parser.cc
+++ b/libiqxmlrpc/value_parser.cc
@@ -178,7 +178,8 @@ ValueBuilder::do_visit_element(const std::string& tagname)
     break;
   }
 
-  if (retval.get())
+  // </nil> is still to be read, it must not reach the outer builder
+  if (retval.get() && state_.get_state() != NIL)
     want_exit();
 }
 
-- 
2.43.0


From cf2b61630d5359acbaa2b5368d0e38370ff063e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:03:42 +0000
Subject: [PATCH 05/43] fix: keep empty names, blank strings and text split by
 comments or CDATA when parsing

---
 libiqxmlrpc/parser2.cc      | 28 ++++++++++++++++++++--------
 libiqxmlrpc/value_parser.cc |  9 +++++++++
 2 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/libiqxmlrpc/parser2.cc b/libiqxmlrpc/parser2.cc
index afdd7f1..d293ae5 100644
--- a/libiqxmlrpc/parser2.cc
+++ b/libiqxmlrpc/parser2.cc
@@ -135,7 +135,10 @@ public:
       element_begin(type == XML_READER_TYPE_ELEMENT),
       element_end(type == XML_READER_TYPE_END_ELEMENT),
       is_empty(element_begin && xmlTextReaderIsEmptyElement(reader)),
-      is_text(type == XML_READER_TYPE_TEXT)
+      is_text(type == XML_READER_TYPE_TEXT ||
+              type == XML_READER_TYPE_CDATA ||
+              type == XML_READER_TYPE_WHITESPACE ||
+              type == XML_READER_TYPE_SIGNIFICANT_WHITESPACE)
     {
     }
   };
@@ -199,15 +202,24 @@ public:
   std::string
   read_data()
   {
-    if (!curr.is_text && !curr.element_end)
-    {
+    const bool at_text = curr.is_text;
+    if (!at_text && !curr.element_end)
       read();
-      if (!curr.is_text && !curr.element_end) {
-        std::string err = "text is expected at " + get_context();
-        throw XML_RPC_violation(err);
-      }
+
+    // Comments and CDATA sections split text into several nodes
+    std::string data;
+    for (; !curr.done && !curr.element_begin && !curr.element_end; read()) {
+      if (curr.is_text)
+        data += to_string(xmlTextReaderValue(reader));
     }
-    return to_string(xmlTextReaderValue(reader));
+
+    if (curr.element_begin && !at_text) {
+      std::string err = "text is expected at " + get_context();
+      throw XML_RPC_violation(err);
+    }
+
+    pushed_back = true;
+    return data;
   }
 
   std::string
diff --git a/libiqxmlrpc/value_parser.cc b/libiqxmlrpc/value_parser.cc
index 2aaad40..b2f27d2 100644
--- a/libiqxmlrpc/value_parser.cc
+++ b/libiqxmlrpc/value_parser.cc
@@ -226,6 +226,15 @@ ValueBuilder::do_visit_text(const std::string& text)
 {
   using boost::lexical_cast;
 
+  if (text.find_first_not_of(" \t\r\n") == std::string::npos) {
+    // layout, unless it is all of a string
+    if (state_.get_state() != STRING || retval.get())
+      return;
+  }
+
+  if (retval.get())
+    throw XML_RPC_violation(parser_.context());
+
   switch (state_.get_state()) {
   case VALUE:
     want_exit();
-- 
2.43.0


From 739000e146c7fb6b6fae5441fee7f127db531b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:04:23 +0000
Subject: [PATCH 06/43] fix: keep the tag of blank strings when string tags are
 omitted

---
 libiqxmlrpc/value_type_xml.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libiqxmlrpc/value_type_xml.cc b/libiqxmlrpc/value_type_xml.cc
index 541e293..ea96bab 100644
--- a/libiqxmlrpc/value_type_xml.cc
+++ b/libiqxmlrpc/value_type_xml.cc
@@ -51,7 +51,10 @@ void Value_type_to_xml::do_visit_bool(bool val)
 
 void Value_type_to_xml::do_visit_string(const std::string& val)
 {
-  if (server_mode_ && Value::omit_string_tag_in_responses()) {
+  // Blank text is read back as a string only within the tag
+  const bool blank = !val.empty() && val.find_first_not_of(" \t\r\n") == std::string::npos;
+
+  if (server_mode_ && Value::omit_string_tag_in_responses() && !blank) {
     builder_.add_textdata(val);
   } else {
     add_textnode("string", val);
-- 
2.43.0


From 5c4f54272b9db0b929d8c88eb14c2360db08f882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:05:03 +0000
Subject: [PATCH 07/43] fix: reject a param element without a value

---
 libiqxmlrpc/request_parser.cc | 7 +++++++
 libiqxmlrpc/request_parser.h  | 3 +++
 2 files changed, 10 insertions(+)

diff --git a/libiqxmlrpc/request_parser.cc b/libiqxmlrpc/request_parser.cc
index 4968b9d..34f85dd 100644
--- a/libiqxmlrpc/request_parser.cc
+++ b/libiqxmlrpc/request_parser.cc
@@ -48,6 +48,13 @@ RequestBuilder::do_visit_element(const std::string& tagname)
   }
 }
 
+void
+RequestBuilder::do_visit_element_end(const std::string& tagname)
+{
+  if (tagname == "param" && state_.get_state() != VALUE)
+    throw XML_RPC_violation(parser_.context());
+}
+
 Request*
 RequestBuilder::get()
 {
diff --git a/libiqxmlrpc/request_parser.h b/libiqxmlrpc/request_parser.h
index b07f9bb..6b84ba9 100644
--- a/libiqxmlrpc/request_parser.h
+++ b/libiqxmlrpc/request_parser.h
@@ -21,6 +21,9 @@ private:
   virtual void
   do_visit_element(const std::string&);
 
+  virtual void
+  do_visit_element_end(const std::string&);
+
   StateMachine state_;
   boost::optional<std::string> method_name_;
   Param_list params_;
-- 
2.43.0


From 99f581a61007e11142d76074d18cf0676c6805a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:05:55 +0000
Subject: [PATCH 08/43] fix: do not leak a struct member or default integer
 while parsing

---
 libiqxmlrpc/value_parser.cc | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/libiqxmlrpc/value_parser.cc b/libiqxmlrpc/value_parser.cc
index b2f27d2..446c791 100644
--- a/libiqxmlrpc/value_parser.cc
+++ b/libiqxmlrpc/value_parser.cc
@@ -19,8 +19,7 @@ class StructBuilder: public ValueBuilderBase {
 public:
   StructBuilder(Parser& parser):
     ValueBuilderBase(parser),
-    state_(parser, NONE),
-    value_(0)
+    state_(parser, NONE)
   {
     static const StateMachine::StateTransition trans[] = {
       { NONE, MEMBER, "member" },
@@ -49,8 +48,9 @@ private:
       break;
 
     case VALUE_READ:
-      value_ = sub_build<Value_type*, ValueBuilder>();
-      value_ = value_ ? value_ : new String("");
+      value_.reset(sub_build<Value_type*, ValueBuilder>());
+      if (!value_.get())
+        value_.reset(new String(""));
       break;
 
     case MEMBER:
@@ -69,7 +69,7 @@ private:
         throw XML_RPC_violation(parser_.context());
       }
 
-      Value_ptr v(new Value(value_));
+      Value_ptr v(new Value(value_.release()));
       proxy_->insert(name_, v);
       state_.set_state(NONE);
     }
@@ -77,7 +77,7 @@ private:
 
   StateMachine state_;
   std::string name_;
-  Value_type* value_;
+  std::auto_ptr<Value_type> value_;
   Struct* proxy_;
 };
 
@@ -207,7 +207,7 @@ ValueBuilder::do_visit_element_end(const std::string&)
 
   case INT64:
     if (default_int64.get()) {
-      retval.reset(new Int64(default_int64.release()->value()));
+      retval.reset(default_int64.release());
       break;
     }
     throw XML_RPC_violation(parser_.context());
-- 
2.43.0


From ef34c65dabec71ebd6c8693ed5984e2449fbf0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:07:17 +0000
Subject: [PATCH 09/43] fix: reject array values nested in another value or
 outside data

---
 libiqxmlrpc/value_parser.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/libiqxmlrpc/value_parser.cc b/libiqxmlrpc/value_parser.cc
index 446c791..abb01ca 100644
--- a/libiqxmlrpc/value_parser.cc
+++ b/libiqxmlrpc/value_parser.cc
@@ -91,7 +91,6 @@ public:
     static const StateMachine::StateTransition trans[] = {
       { NONE, DATA, "data" },
       { DATA, VALUES, "value" },
-      { VALUES, VALUES, "value" },
       { 0, 0, 0 }
     };
     state_.set_transitions(trans);
@@ -102,7 +101,8 @@ private:
   enum State {
     NONE,
     DATA,
-    VALUES
+    VALUES,
+    END
   };
 
   virtual void
@@ -116,6 +116,15 @@ private:
     }
   }
 
+  virtual void
+  do_visit_element_end(const std::string& tagname)
+  {
+    if (tagname == "value")
+      state_.set_state(DATA);
+    else if (tagname == "data")
+      state_.set_state(END);
+  }
+
   StateMachine state_;
   Array* proxy_;
 };
-- 
2.43.0


From 3b71a29f1149f142440b61bfe7705c36dc3a94dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:09:39 +0000
Subject: [PATCH 10/43] fix: refuse documents nested deep enough to overflow
 the stack

---
 libiqxmlrpc/parser2.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/libiqxmlrpc/parser2.cc b/libiqxmlrpc/parser2.cc
index d293ae5..a46d55e 100644
--- a/libiqxmlrpc/parser2.cc
+++ b/libiqxmlrpc/parser2.cc
@@ -126,7 +126,10 @@ public:
 
     ParseStep():
       done(false),
-      is_empty(false)
+      element_begin(false),
+      element_end(false),
+      is_empty(false),
+      is_text(false)
     {
     }
 
@@ -170,6 +173,10 @@ public:
       curr = ParseStep(node_type(), reader);
     }
 
+    // Builders are recursive, protect the stack
+    if (curr.element_begin && depth() > 3072)
+      throw Parse_error("elements are nested too deeply");
+
     return curr;
   }
 
-- 
2.43.0


From 4dea8cb2c0bad77c78d458f8f85a3b207dc4ae1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:13:33 +0000
Subject: [PATCH 11/43] fix: free the value of a struct member on erase

---
 libiqxmlrpc/value_type.cc | 12 ++++++++++++
 libiqxmlrpc/value_type.h  |  2 +-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/libiqxmlrpc/value_type.cc b/libiqxmlrpc/value_type.cc
index c36d9f5..cd7345e 100644
--- a/libiqxmlrpc/value_type.cc
+++ b/libiqxmlrpc/value_type.cc
@@ -303,6 +303,18 @@ void Struct::clear()
   values.clear();
 }
 
+void Struct::erase( const std::string& f )
+{
+  iterator i = values.find(f);
+
+  if( i != values.end() )
+  {
+    delete i->second;
+    values.erase(i);
+  }
+}
+
+
 void Struct::insert( const std::string& f, Value_ptr val )
 {
   Value*& tmp = values[f];
diff --git a/libiqxmlrpc/value_type.h b/libiqxmlrpc/value_type.h
index e6650be..9e2f5fb 100644
--- a/libiqxmlrpc/value_type.h
+++ b/libiqxmlrpc/value_type.h
@@ -249,7 +249,7 @@ public:
   const_iterator find( const std::string& key ) const { return values.find(key); }
   iterator find( const std::string& key ) { return values.find(key); }
 
-  void erase( const std::string& key ) { values.erase(key); }
+  void erase( const std::string& key );
 };
 
 #ifdef _MSC_VER
-- 
2.43.0


From 40c7ffba0806ebb93809fab355886757f0f081df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:02 +0000
Subject: [PATCH 12/43] fix: end the HTTP header at the first empty line of
 either style

A CR LF CR LF inside the body was taken for the end of a header written
with bare line feeds when both arrived in one read.
---
 libiqxmlrpc/http.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libiqxmlrpc/http.cc b/libiqxmlrpc/http.cc
index 88dc6ad..4c95f90 100644
--- a/libiqxmlrpc/http.cc
+++ b/libiqxmlrpc/http.cc
@@ -436,8 +436,11 @@ bool Packet_reader::read_header( const std::string& s )
   header_cache += s;
   iterator_range<std::string::iterator> i = find_first(header_cache, "\r\n\r\n");
 
-  if( i.begin() == i.end() )
-    i = boost::find_first(header_cache, "\n\n");
+  // the header ends at the first empty line, of whichever style
+  iterator_range<std::string::iterator> j = find_first(header_cache, "\n\n");
+
+  if( i.empty() || (!j.empty() && j.begin() < i.begin()) )
+    i = j;
 
   if( i.begin() == i.end() )
     return false;
-- 
2.43.0


From e7f41ab39495f4de7cfcb45ddc6af222a92ad2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:02 +0000
Subject: [PATCH 13/43] fix: send 100-continue again for later requests of a
 connection

The flag that the interim response was sent survived the request, so a
client withholding its body a second time waited forever.
---
 libiqxmlrpc/http.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libiqxmlrpc/http.cc b/libiqxmlrpc/http.cc
index 4c95f90..13c5a82 100644
--- a/libiqxmlrpc/http.cc
+++ b/libiqxmlrpc/http.cc
@@ -411,6 +411,7 @@ void Packet_reader::clear()
   content_cache.erase();
   header_cache.erase();
   constructed = false;
+  continue_sent_ = false;
   total_sz = 0;
 }
 
-- 
2.43.0


From 8183917e9bd4e5df5f954094ab85f791f16cd288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:02 +0000
Subject: [PATCH 14/43] fix: compare the keep-alive connection option without
 regard to case

---
 libiqxmlrpc/http.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libiqxmlrpc/http.cc b/libiqxmlrpc/http.cc
index 13c5a82..ee21467 100644
--- a/libiqxmlrpc/http.cc
+++ b/libiqxmlrpc/http.cc
@@ -220,7 +220,7 @@ unsigned Header::content_length() const
 
 bool Header::conn_keep_alive() const
 {
-  return get_string(names::connection) == "keep-alive";
+  return boost::iequals(get_string(names::connection), "keep-alive");
 }
 
 bool Header::expect_continue() const
-- 
2.43.0


From e95905208a8a009c9aa3fcf7709cd00db9961f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:02 +0000
Subject: [PATCH 15/43] fix: deliver HTTP error responses to peers that close
 their sending side

The end of the peer's stream ended the connection before the pending
error response was written.
---
 libiqxmlrpc/http_server.cc | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/libiqxmlrpc/http_server.cc b/libiqxmlrpc/http_server.cc
index 7353515..416e84b 100644
--- a/libiqxmlrpc/http_server.cc
+++ b/libiqxmlrpc/http_server.cc
@@ -17,6 +17,7 @@ class Http_server_connection:
   public Server_connection
 {
   iqnet::Reactor_base* reactor;
+  bool refused;
 
 public:
   Http_server_connection( const iqnet::Socket& );
@@ -58,7 +59,8 @@ Http_server::Http_server(const iqnet::Inet_addr& bind_addr, Executor_factory_bas
 
 Http_server_connection::Http_server_connection( const iqnet::Socket& s ):
   Connection( s ),
-  Server_connection( s.get_peer_addr() )
+  Server_connection( s.get_peer_addr() ),
+  refused(false)
 {
 }
 
@@ -81,6 +83,17 @@ void Http_server_connection::handle_input( bool& terminate )
   try {
     size_t n = recv( read_buf(), read_buf_sz() );
 
+    if( refused )
+    {
+      // Discard input until the error response is sent.
+      if( !n )
+      {
+        reactor->unregister_handler( this, Reactor_base::INPUT );
+        reactor->register_handler( this, Reactor_base::OUTPUT );
+      }
+      return;
+    }
+
     if( !n )
     {
       terminate = true;
@@ -98,6 +111,7 @@ void Http_server_connection::handle_input( bool& terminate )
   {
     // Close connection after sending HTTP error response
     keep_alive = false;
+    refused = true;
     schedule_response( new http::Packet(e) );
   }
 }
-- 
2.43.0


From f16d39561ac8bd5375d959366e5bb36f47c253e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:48:58 +0000
Subject: [PATCH 16/43] fix: answer 401 to credentials that are not valid
 base64

---
 libiqxmlrpc/http.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/libiqxmlrpc/http.cc b/libiqxmlrpc/http.cc
index ee21467..793e4a0 100644
--- a/libiqxmlrpc/http.cc
+++ b/libiqxmlrpc/http.cc
@@ -312,8 +312,13 @@ void Request_header::get_authinfo(std::string& user, std::string& pw) const
   if (v[0] != "basic")
     throw Unauthorized();
 
-  boost::scoped_ptr<Binary_data> bin_authinfo( Binary_data::from_base64(v[1]) );
-  std::string data = bin_authinfo->get_data();
+  std::string data;
+  try {
+    boost::scoped_ptr<Binary_data> bin_authinfo( Binary_data::from_base64(v[1]) );
+    data = bin_authinfo->get_data();
+  } catch (const Binary_data::Malformed_base64&) {
+    throw Unauthorized();
+  }
 
   size_t colon_it = data.find_first_of(":");
   user = data.substr(0, colon_it);
-- 
2.43.0


From a36b7130748ca703ed68af24d603ff996dd2984b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:03 +0000
Subject: [PATCH 17/43] fix: free the replaced factory when a method name is
 registered again

---
 libiqxmlrpc/dispatcher_manager.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libiqxmlrpc/dispatcher_manager.cc b/libiqxmlrpc/dispatcher_manager.cc
index 1794be5..53dd39f 100644
--- a/libiqxmlrpc/dispatcher_manager.cc
+++ b/libiqxmlrpc/dispatcher_manager.cc
@@ -41,7 +41,10 @@ Default_method_dispatcher::~Default_method_dispatcher()
 void Default_method_dispatcher::register_method
   ( const std::string& name, Method_factory_base* fb )
 {
-  fs[name] = fb;
+  Method_factory_base*& slot = fs[name];
+  if (slot != fb)
+    delete slot;
+  slot = fb;
 }
 
 Method* Default_method_dispatcher::do_create_method(const std::string& name)
-- 
2.43.0


From 7d7f351c09a61f1b96330f36148ff58b09caaab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:03 +0000
Subject: [PATCH 18/43] fix: close connections refused by the firewall and
 survive refused peers that reset

---
 libiqxmlrpc/acceptor.cc | 15 ++++++++++-----
 libiqxmlrpc/socket.cc   |  2 --
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/libiqxmlrpc/acceptor.cc b/libiqxmlrpc/acceptor.cc
index 535abaa..2bb289e 100644
--- a/libiqxmlrpc/acceptor.cc
+++ b/libiqxmlrpc/acceptor.cc
@@ -57,13 +57,18 @@ void Acceptor::accept()
   {
     std::string msg = firewall->message();
 
-    if (!msg.empty())
-    {
-      new_sock.send_shutdown(msg.c_str(), msg.size());
-    } else {
-      new_sock.shutdown();
+    try {
+      if (!msg.empty())
+      {
+        new_sock.send_shutdown(msg.c_str(), msg.size());
+      } else {
+        new_sock.shutdown();
+      }
+    } catch (const network_error&) {
+      // the refused peer has gone already
     }
 
+    new_sock.close();
     return;
   }
 
diff --git a/libiqxmlrpc/socket.cc b/libiqxmlrpc/socket.cc
index ea3463f..26eee96 100644
--- a/libiqxmlrpc/socket.cc
+++ b/libiqxmlrpc/socket.cc
@@ -96,8 +96,6 @@ size_t Socket::recv( char* buf, size_t len )
 void Socket::send_shutdown( const char* data, size_t len )
 {
   send(data, len);
-  const struct linger ling = {1, 0};
-  ::setsockopt( sock, SOL_SOCKET, SO_LINGER, reinterpret_cast<const char*>(&ling), sizeof(ling) );
   ::shutdown( sock, 1 );
 }
 
-- 
2.43.0


From 5f3ab1279b1aa89d91e449788587d9d74c9b913d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:09:31 +0000
Subject: [PATCH 19/43] fix: do not lose the wake-up of a pool thread that is
 busy when the pool is destroyed

---
 libiqxmlrpc/executor.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libiqxmlrpc/executor.cc b/libiqxmlrpc/executor.cc
index 8a218b1..1127d6a 100644
--- a/libiqxmlrpc/executor.cc
+++ b/libiqxmlrpc/executor.cc
@@ -99,6 +99,9 @@ void Pool_executor_factory::Pool_thread::operator ()()
 
     if (pool->req_queue.empty())
     {
+      if (pool->is_being_destructed())
+        return;
+
       pool->req_queue_cond.wait(lk);
 
       if (pool->is_being_destructed())
@@ -170,10 +173,10 @@ void Pool_executor_factory::register_executor( Pool_executor* executor )
 
 void Pool_executor_factory::destruction_started()
 {
+  scoped_lock lk_(req_queue_lock);
   scoped_lock lk(destructor_lock);
   in_destructor = true;
 
-  scoped_lock lk_(req_queue_lock);
   req_queue_cond.notify_all();
 }
 
-- 
2.43.0


From 9fd852ccde3ce44aef6e576df1b418ef4d66b886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:09:31 +0000
Subject: [PATCH 20/43] fix: close the sockets of the reactor interrupter

---
 libiqxmlrpc/reactor_interrupter.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/libiqxmlrpc/reactor_interrupter.cc b/libiqxmlrpc/reactor_interrupter.cc
index 7dcaee8..2fca89f 100644
--- a/libiqxmlrpc/reactor_interrupter.cc
+++ b/libiqxmlrpc/reactor_interrupter.cc
@@ -39,6 +39,11 @@ private:
   Reactor_base* reactor_;
 };
 
+//! A socket that is closed with its owner.
+struct Owned_socket: Socket {
+  ~Owned_socket() { close(); }
+};
+
 class Reactor_interrupter::Impl: boost::noncopyable {
 public:
   Impl(Reactor_base* reactor);
@@ -48,14 +53,14 @@ public:
 
 private:
   std::auto_ptr<Interrupter_connection> server_;
-  Socket client_;
+  Owned_socket client_;
   boost::mutex lock_;
 };
 
 
 Reactor_interrupter::Impl::Impl(Reactor_base* reactor)
 {
-  Socket srv;
+  Owned_socket srv;
   srv.bind(Inet_addr("127.0.0.1", 0)); // bind to port 0, which means any port beyond 1024
   srv.listen(1);
 
-- 
2.43.0


From fec12f4b6f3709bf12698b9fe1ecff4d1025d6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:09:31 +0000
Subject: [PATCH 21/43] fix: close the socket of an acceptor that cannot bind

---
 libiqxmlrpc/acceptor.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/libiqxmlrpc/acceptor.cc b/libiqxmlrpc/acceptor.cc
index 2bb289e..cd4b8fd 100644
--- a/libiqxmlrpc/acceptor.cc
+++ b/libiqxmlrpc/acceptor.cc
@@ -17,8 +17,14 @@ Acceptor::Acceptor( const iqnet::Inet_addr& bind_addr, Accepted_conn_factory* fa
   reactor(reactor_),
   firewall(0)
 {
-  sock.bind( bind_addr );
-  listen();
+  try {
+    sock.bind( bind_addr );
+    listen();
+  } catch (...) {
+    sock.close();
+    throw;
+  }
+
   reactor->register_handler( this, Reactor_base::INPUT );
 }
 
-- 
2.43.0


From 4b49509d170f4cab7dc654de988184120f1b7586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:09:31 +0000
Subject: [PATCH 22/43] fix: close the socket of a failed connect

---
 libiqxmlrpc/connector.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/libiqxmlrpc/connector.cc b/libiqxmlrpc/connector.cc
index 83d6626..917dcd1 100644
--- a/libiqxmlrpc/connector.cc
+++ b/libiqxmlrpc/connector.cc
@@ -53,7 +53,14 @@ Connector_base::connect(int timeout)
 {
   Reactor<Null_lock> reactor;
   Connect_processor connector(reactor);
-  bool done = connector.sock.connect( peer_addr );
+  bool done = false;
+
+  try {
+    done = connector.sock.connect( peer_addr );
+  } catch (...) {
+    connector.sock.close();
+    throw;
+  }
 
   if (done)
     return create_connection( connector.sock );
-- 
2.43.0


From 656d7341e66879d6a0edc1a683ea47cb6bb59e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:09:31 +0000
Subject: [PATCH 23/43] fix: free open connections when the server is destroyed

---
 libiqxmlrpc/server.cc      | 16 ++++++++++++++++
 libiqxmlrpc/server.h       |  4 ++++
 libiqxmlrpc/server_conn.cc |  9 +++++++++
 libiqxmlrpc/server_conn.h  |  5 +----
 4 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/libiqxmlrpc/server.cc b/libiqxmlrpc/server.cc
index 180eb55..01a450c 100644
--- a/libiqxmlrpc/server.cc
+++ b/libiqxmlrpc/server.cc
@@ -4,6 +4,7 @@
 #include <boost/optional.hpp>
 #include <boost/scoped_ptr.hpp>
 #include <memory>
+#include <set>
 
 #include "server.h"
 #include "auth_plugin.h"
@@ -38,6 +39,8 @@ public:
   std::auto_ptr<Interceptor> interceptors;
   const Auth_Plugin_base*    auth_plugin;
 
+  std::set<Server_connection*> connections;
+
   Impl(
     const iqnet::Inet_addr& addr,
     iqnet::Accepted_conn_factory* cf,
@@ -70,9 +73,22 @@ Server::Server(
 
 Server::~Server()
 {
+  while (!impl->connections.empty())
+    delete *impl->connections.begin();
+
   delete impl;
 }
 
+void Server::keep_connection( Server_connection* conn )
+{
+  impl->connections.insert(conn);
+}
+
+void Server::forget_connection( Server_connection* conn )
+{
+  impl->connections.erase(conn);
+}
+
 void Server::register_method(const std::string& name, Method_factory_base* f)
 {
   impl->disp_manager.register_method(name, f);
diff --git a/libiqxmlrpc/server.h b/libiqxmlrpc/server.h
index 059bc50..590221e 100644
--- a/libiqxmlrpc/server.h
+++ b/libiqxmlrpc/server.h
@@ -96,6 +96,10 @@ protected:
   iqnet::Accepted_conn_factory* get_conn_factory();
 
 private:
+  friend class Server_connection;
+  void keep_connection( Server_connection* );
+  void forget_connection( Server_connection* );
+
   class Impl;
   Impl *impl;
 };
diff --git a/libiqxmlrpc/server_conn.cc b/libiqxmlrpc/server_conn.cc
index 83dd8ad..16494b7 100644
--- a/libiqxmlrpc/server_conn.cc
+++ b/libiqxmlrpc/server_conn.cc
@@ -19,6 +19,15 @@ Server_connection::Server_connection( const iqnet::Inet_addr& a ):
 
 Server_connection::~Server_connection()
 {
+  if( server )
+    server->forget_connection( this );
+}
+
+
+void Server_connection::set_server( Server* s )
+{
+  server = s;
+  server->keep_connection( this );
 }
 
 
diff --git a/libiqxmlrpc/server_conn.h b/libiqxmlrpc/server_conn.h
index 48eade6..156d5cc 100644
--- a/libiqxmlrpc/server_conn.h
+++ b/libiqxmlrpc/server_conn.h
@@ -38,10 +38,7 @@ public:
 
   const iqnet::Inet_addr& get_peer_addr() const { return peer_addr; }
 
-  void set_server( Server* s )
-  {
-    server = s;
-  }
+  void set_server( Server* );
 
   void schedule_response( http::Packet* );
 
-- 
2.43.0


From 91aa79284579b6a6c87cd5ca09a71f32027c22ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:10:01 +0000
Subject: [PATCH 24/43] fix: synchronize the exit flag and the log of a server
 between threads

---
 libiqxmlrpc/server.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libiqxmlrpc/server.cc b/libiqxmlrpc/server.cc
index 01a450c..29b23e4 100644
--- a/libiqxmlrpc/server.cc
+++ b/libiqxmlrpc/server.cc
@@ -3,6 +3,8 @@
 
 #include <boost/optional.hpp>
 #include <boost/scoped_ptr.hpp>
+#include <boost/thread/mutex.hpp>
+#include <atomic>
 #include <memory>
 #include <set>
 
@@ -30,8 +32,9 @@ public:
   std::auto_ptr<iqnet::Acceptor>              acceptor;
   iqnet::Firewall_base* firewall;
 
-  bool exit_flag;
+  std::atomic<bool> exit_flag;
   std::ostream* log;
+  boost::mutex log_lock;
   size_t max_req_sz;
   http::Verification_level ver_level;
 
@@ -158,6 +161,8 @@ void Server::set_auth_plugin( const Auth_Plugin_base& ap )
 
 void Server::log_err_msg( const std::string& msg )
 {
+  boost::mutex::scoped_lock lk(impl->log_lock);
+
   if( impl->log )
     *impl->log << msg << std::endl;
 }
-- 
2.43.0


From e72520187d799f31cbf4bddb49f8d614a45f5463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:10:01 +0000
Subject: [PATCH 25/43] fix: lock the reactor while looking for registered
 handlers

---
 libiqxmlrpc/reactor_impl.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/libiqxmlrpc/reactor_impl.h b/libiqxmlrpc/reactor_impl.h
index fd2e4de..c2cd502 100644
--- a/libiqxmlrpc/reactor_impl.h
+++ b/libiqxmlrpc/reactor_impl.h
@@ -280,11 +280,15 @@ bool Reactor<Lock>::handle_system_events(Reactor_base::Timeout ms)
 template <class Lock>
 bool Reactor<Lock>::handle_events(Reactor_base::Timeout ms)
 {
-  if (handlers.empty())
-    return false;
+  {
+    scoped_lock lk(lock);
 
-  if (handlers.size() - num_stoppers <= 0)
-    throw No_handlers();
+    if (handlers.empty())
+      return false;
+
+    if (handlers.size() - num_stoppers <= 0)
+      throw No_handlers();
+  }
 
   handle_user_events();
   return handle_system_events(ms);
-- 
2.43.0


From 2c07bf5eced39ea911ec13f54b7421d27dbfb603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:10:01 +0000
Subject: [PATCH 26/43] fix: resolve an address shared between threads once,
 and again after a failed lookup

---
 libiqxmlrpc/inet_addr.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/libiqxmlrpc/inet_addr.cc b/libiqxmlrpc/inet_addr.cc
index 21d52bc..5558769 100644
--- a/libiqxmlrpc/inet_addr.cc
+++ b/libiqxmlrpc/inet_addr.cc
@@ -2,6 +2,7 @@
 //  Copyright (C) 2011 Anton Dedov
 
 #include <boost/optional.hpp>
+#include <boost/thread/mutex.hpp>
 #include "inet_addr.h"
 #include "net_except.h"
 
@@ -57,6 +58,7 @@ typedef struct sockaddr_in SystemSockAddrIn;
 
 struct Inet_addr::Impl {
   mutable boost::optional<SystemSockAddrIn> sa;
+  mutable boost::mutex sa_lock;
   std::string host;
   int port;
 
@@ -92,12 +94,13 @@ Inet_addr::Impl::Impl( const SystemSockAddrIn& s ):
 void
 Inet_addr::Impl::init_sockaddr() const
 {
-  sa = SystemSockAddrIn();
+  SystemSockAddrIn addr = SystemSockAddrIn();
   struct hostent* hent = 0;
   IQXMLRPC_GETHOSTBYNAME(host.c_str());
-  sa->sin_family = PF_INET;
-  sa->sin_port = htons(port);
-  memcpy( (char*)&(sa->sin_addr), (char*)hent->h_addr, hent->h_length );
+  addr.sin_family = PF_INET;
+  addr.sin_port = htons(port);
+  memcpy( (char*)&(addr.sin_addr), (char*)hent->h_addr, hent->h_length );
+  sa = addr;
 }
 
 Inet_addr::Inet_addr( const std::string& host, int port ):
@@ -118,6 +121,8 @@ Inet_addr::Inet_addr( const SystemSockAddrIn& sa ):
 const SystemSockAddrIn*
 Inet_addr::get_sockaddr() const
 {
+  boost::mutex::scoped_lock lk(impl_->sa_lock);
+
   if (!impl_->sa) {
     impl_->init_sockaddr();
   }
-- 
2.43.0


From 9355437245ac5ea9bbd5a5d70d74fcf26475c5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:10:01 +0000
Subject: [PATCH 27/43] fix: keep serving when accepting a connection fails

---
 libiqxmlrpc/acceptor.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libiqxmlrpc/acceptor.cc b/libiqxmlrpc/acceptor.cc
index cd4b8fd..3a4a2cf 100644
--- a/libiqxmlrpc/acceptor.cc
+++ b/libiqxmlrpc/acceptor.cc
@@ -45,7 +45,11 @@ void Acceptor::set_firewall( iqnet::Firewall_base* fw )
 
 void Acceptor::handle_input( bool& )
 {
-  accept();
+  try {
+    accept();
+  } catch (const network_error&) {
+    // this connection is lost, others may come
+  }
 }
 
 
-- 
2.43.0


From 7b6c6d87c939d22d2bf4a0873e902de52f6af697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:10:01 +0000
Subject: [PATCH 28/43] fix: go on waiting for the rest of the timeout when a
 signal interrupts poll

---
 libiqxmlrpc/reactor_poll_impl.cc | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/libiqxmlrpc/reactor_poll_impl.cc b/libiqxmlrpc/reactor_poll_impl.cc
index 13bedc4..f7477c1 100644
--- a/libiqxmlrpc/reactor_poll_impl.cc
+++ b/libiqxmlrpc/reactor_poll_impl.cc
@@ -8,6 +8,7 @@
 
 #include <deque>
 #include <sys/poll.h>
+#include <time.h>
 #include <vector>
 
 using namespace iqnet;
@@ -42,15 +43,33 @@ void Reactor_poll_impl::reset(const HandlerStateList& in)
   }
 }
 
+namespace {
+
+long long monotonic_ms()
+{
+  struct timespec t;
+  clock_gettime( CLOCK_MONOTONIC, &t );
+  return t.tv_sec * 1000LL + t.tv_nsec / 1000000;
+}
+
+} // anonymous namespace
+
 bool Reactor_poll_impl::poll(HandlerStateList& out, Reactor_base::Timeout to_ms)
 {
-  do {
+  const long long end = to_ms >= 0 ? monotonic_ms() + to_ms : 0;
+
+  for (;;) {
     int code = ::poll( &impl->pfd[0], impl->pfd.size(), to_ms );
 
     if( code < 0 )
     {
-      if (errno == EINTR)
+      if (errno == EINTR) {
+        if (to_ms >= 0) {
+          long long left = end - monotonic_ms();
+          to_ms = left > 0 ? static_cast<Reactor_base::Timeout>(left) : 0;
+        }
         continue;
+      }
 
       throw network_error( "poll()" );
     }
@@ -58,7 +77,8 @@ bool Reactor_poll_impl::poll(HandlerStateList& out, Reactor_base::Timeout to_ms)
     if( !code )
       return false;
 
-  } while (false);
+    break;
+  }
 
   for( unsigned i = 0; i < impl->pfd.size(); i++ )
   {
-- 
2.43.0


From 592215397665d85c26ebf96391eeabbc55e16b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:10:01 +0000
Subject: [PATCH 29/43] fix: read a response once per event, as the next read
 may find nothing yet

---
 libiqxmlrpc/http_client.cc  | 11 +++++------
 libiqxmlrpc/https_client.cc | 11 +++++------
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/libiqxmlrpc/http_client.cc b/libiqxmlrpc/http_client.cc
index e7122ef..33ffdd2 100644
--- a/libiqxmlrpc/http_client.cc
+++ b/libiqxmlrpc/http_client.cc
@@ -54,13 +54,12 @@ void Http_client_connection::handle_output( bool& )
 
 void Http_client_connection::handle_input( bool& )
 {
-  for( size_t sz = read_buf_sz(); (sz == read_buf_sz()) && !resp_packet ; )
-  {
-    if( !(sz = recv( read_buf(), read_buf_sz() )) )
-      throw iqnet::network_error( "Connection closed by peer.", false );
+  size_t sz = recv( read_buf(), read_buf_sz() );
 
-    resp_packet = read_response( std::string(read_buf(), sz) );
-  }
+  if( !sz )
+    throw iqnet::network_error( "Connection closed by peer.", false );
+
+  resp_packet = read_response( std::string(read_buf(), sz) );
 
   if( resp_packet )
     reactor->unregister_handler( this );
diff --git a/libiqxmlrpc/https_client.cc b/libiqxmlrpc/https_client.cc
index e7e860e..1fb8393 100644
--- a/libiqxmlrpc/https_client.cc
+++ b/libiqxmlrpc/https_client.cc
@@ -96,13 +96,12 @@ void Https_proxy_client_connection::handle_output( bool& )
 
 void Https_proxy_client_connection::handle_input( bool& )
 {
-  for( size_t sz = read_buf_sz(); (sz == read_buf_sz()) && !resp_packet ; )
-  {
-    if( !(sz = recv( read_buf(), read_buf_sz() )) )
-      throw iqnet::network_error( "Connection closed by peer.", false );
+  size_t sz = recv( read_buf(), read_buf_sz() );
 
-    resp_packet.reset( read_response(std::string(read_buf(), sz), true) );
-  }
+  if( !sz )
+    throw iqnet::network_error( "Connection closed by peer.", false );
+
+  resp_packet.reset( read_response(std::string(read_buf(), sz), true) );
 
   if( resp_packet )
   {
-- 
2.43.0


From caeeaf0be1bfdb827a57d0c66835392e170df140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:10:01 +0000
Subject: [PATCH 30/43] fix: drop the kept connection of a client after a
 failed call

---
 libiqxmlrpc/client.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/libiqxmlrpc/client.cc b/libiqxmlrpc/client.cc
index a2ffe2b..dc10142 100644
--- a/libiqxmlrpc/client.cc
+++ b/libiqxmlrpc/client.cc
@@ -137,7 +137,13 @@ Response Client_base::execute(
   Auto_conn conn( *impl_.get(), *this );
   conn->set_options(impl_->opts);
 
-  return conn->process_session( req, xheaders );
+  try {
+    return conn->process_session( req, xheaders );
+  } catch (...) {
+    // a late response must not be taken for the next one
+    impl_->conn_cache.reset();
+    throw;
+  }
 }
 
 } // namespace iqxmlrpc
-- 
2.43.0


From 6a35a9724ec3df22071c24d369ee97858312fe32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:52:33 +0000
Subject: [PATCH 31/43] fix: describe TLS errors that have no reason text

---
 libiqxmlrpc/ssl_lib.cc | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/libiqxmlrpc/ssl_lib.cc b/libiqxmlrpc/ssl_lib.cc
index 2348a38..e55d6d6 100644
--- a/libiqxmlrpc/ssl_lib.cc
+++ b/libiqxmlrpc/ssl_lib.cc
@@ -260,9 +260,21 @@ Ctx::prepare_verify(SSL* ssl, bool server)
 }
 
 // ----------------------------------------------------------------------------
+namespace {
+
+const char*
+reason(unsigned long err)
+{
+  // errors without a text are possible, e.g. those of the system
+  const char* s = ERR_reason_error_string(err);
+  return s ? s : "unknown error";
+}
+
+} // anonymous namespace
+
 exception::exception() throw():
   ssl_err( ERR_get_error() ),
-  msg( ERR_reason_error_string(ssl_err) )
+  msg( reason(ssl_err) )
 {
   msg.insert(0, "SSL: ");
 }
@@ -270,7 +282,7 @@ exception::exception() throw():
 
 exception::exception( unsigned long err ) throw():
   ssl_err(err),
-  msg( ERR_reason_error_string(ssl_err) )
+  msg( reason(ssl_err) )
 {
   msg.insert(0, "SSL: ");
 }
-- 
2.43.0


From 997488a70a537ef917fea29f527149192f2d7a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:52:56 +0000
Subject: [PATCH 32/43] fix: write each byte of a certificate fingerprint with
 two digits

---
 libiqxmlrpc/ssl_lib.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libiqxmlrpc/ssl_lib.cc b/libiqxmlrpc/ssl_lib.cc
index e55d6d6..32855a6 100644
--- a/libiqxmlrpc/ssl_lib.cc
+++ b/libiqxmlrpc/ssl_lib.cc
@@ -20,6 +20,7 @@
 #include <pthread.h>
 #endif
 
+#include <iomanip>
 #include <sstream>
 #include "ssl_lib.h"
 #include "net_except.h"
@@ -171,7 +172,7 @@ ConnectionVerifier::cert_finger_sha256(X509_STORE_CTX* ctx) const
 
   std::ostringstream ss;
   for(int i = 0; i < 32; i++)
-     ss << std::hex << int(md[i]);
+     ss << std::hex << std::setw(2) << std::setfill('0') << int(md[i]);
 
   return ss.str();
 }
-- 
2.43.0


From 733babab3c65d455af2ad35a193bf4cd7c49bc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:52:56 +0000
Subject: [PATCH 33/43] fix: do not let a vanished TLS peer end the process
 with SIGPIPE

---
 libiqxmlrpc/ssl_lib.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/libiqxmlrpc/ssl_lib.cc b/libiqxmlrpc/ssl_lib.cc
index 32855a6..64ea1c6 100644
--- a/libiqxmlrpc/ssl_lib.cc
+++ b/libiqxmlrpc/ssl_lib.cc
@@ -18,6 +18,7 @@
 
 #ifndef WIN32
 #include <pthread.h>
+#include <signal.h>
 #endif
 
 #include <iomanip>
@@ -100,6 +101,14 @@ init_library()
     CRYPTO_set_id_callback(&openssl_id_function);
 #endif
 
+#ifndef _WIN32
+  // OpenSSL writes to sockets in a way that raises SIGPIPE
+  // when the peer is gone, which would end the process
+  struct sigaction sa;
+  if (!sigaction(SIGPIPE, 0, &sa) && sa.sa_handler == SIG_DFL)
+    signal(SIGPIPE, SIG_IGN);
+#endif
+
   iqxmlrpc_ssl_data_idx = SSL_get_ex_new_index(0, (void*)"iqxmlrpc verifier", NULL, NULL, NULL);
 }
 
-- 
2.43.0


From f009524b54d9b4a2eeaf4246d2afa9db016b560d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:53:25 +0000
Subject: [PATCH 34/43] fix: give the TLS connection behind a proxy its options
 and the socket

---
 libiqxmlrpc/https_client.cc | 19 +++++++++++++++----
 libiqxmlrpc/https_client.h  |  4 ++++
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/libiqxmlrpc/https_client.cc b/libiqxmlrpc/https_client.cc
index 1fb8393..978e647 100644
--- a/libiqxmlrpc/https_client.cc
+++ b/libiqxmlrpc/https_client.cc
@@ -51,14 +51,25 @@ Https_proxy_client_connection::Https_proxy_client_connection(
   sock.set_non_blocking( nb );
 }
 
+Https_proxy_client_connection::~Https_proxy_client_connection()
+{
+}
+
 http::Packet* Https_proxy_client_connection::do_process_session( const std::string& s )
 {
-  setup_tunnel();
+  if( !https_conn )
+  {
+    setup_tunnel();
 
-  Https_client_connection https_conn(sock, non_blocking);
-  https_conn.post_connect();
+    // from here on the socket belongs to the TLS connection
+    Socket tunnel( sock );
+    sock = Socket( -1, tunnel.get_peer_addr() );
+    https_conn.reset( new Https_client_connection(tunnel, non_blocking) );
+    https_conn->post_connect();
+  }
 
-  return https_conn.do_process_session(s);
+  https_conn->set_options( opts() );
+  return https_conn->do_process_session(s);
 }
 
 void Https_proxy_client_connection::setup_tunnel()
diff --git a/libiqxmlrpc/https_client.h b/libiqxmlrpc/https_client.h
index 2295bf2..2fecdce 100644
--- a/libiqxmlrpc/https_client.h
+++ b/libiqxmlrpc/https_client.h
@@ -17,12 +17,15 @@ namespace iqxmlrpc
 
 //! XML-RPC \b HTTPS PROXY client connection.
 //! DO NOT USE IT IN YOUR CODE.
+class Https_client_connection;
+
 class LIBIQXMLRPC_API Https_proxy_client_connection:
   public iqxmlrpc::Client_connection,
   public iqnet::Connection
 {
 public:
   Https_proxy_client_connection( const iqnet::Socket&, bool non_block_flag );
+  ~Https_proxy_client_connection();
 
   void handle_input( bool& );
   void handle_output( bool& );
@@ -34,6 +37,7 @@ protected:
 
   boost::scoped_ptr<iqnet::Reactor_base> reactor;
   boost::scoped_ptr<http::Packet> resp_packet;
+  boost::scoped_ptr<Https_client_connection> https_conn;
   bool non_blocking;
   std::string out_str;
 };
-- 
2.43.0


From 2ed92f1e8ea9e8bdb308eca016cca0e17c6a89bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:53:57 +0000
Subject: [PATCH 35/43] fix: report a closed TLS connection as such and not as
 a timeout

---
 libiqxmlrpc/https_client.cc | 6 ++++++
 libiqxmlrpc/https_client.h  | 1 +
 2 files changed, 7 insertions(+)

diff --git a/libiqxmlrpc/https_client.cc b/libiqxmlrpc/https_client.cc
index 978e647..22db2a2 100644
--- a/libiqxmlrpc/https_client.cc
+++ b/libiqxmlrpc/https_client.cc
@@ -187,6 +187,12 @@ void Https_client_connection::recv_succeed( bool&, size_t, size_t sz )
   }
 }
 
+
+void Https_client_connection::finish()
+{
+  throw iqnet::network_error( "Connection closed by peer.", false );
+}
+
 } // namespace iqxmlrpc
 
 // vim:ts=2:sw=2:et
diff --git a/libiqxmlrpc/https_client.h b/libiqxmlrpc/https_client.h
index 2fecdce..aaf3363 100644
--- a/libiqxmlrpc/https_client.h
+++ b/libiqxmlrpc/https_client.h
@@ -66,6 +66,7 @@ public:
   void connect_succeed();
   void send_succeed( bool& );
   void recv_succeed( bool&, size_t req_len, size_t real_len  );
+  void finish();
 
 protected:
   friend class Https_proxy_client_connection;
-- 
2.43.0


From 0d908804b2c4f8282d72cd43c5f241f23a09f921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:53:57 +0000
Subject: [PATCH 36/43] fix: free the OpenSSL context with its owner

---
 libiqxmlrpc/ssl_lib.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libiqxmlrpc/ssl_lib.cc b/libiqxmlrpc/ssl_lib.cc
index 64ea1c6..adfdc5e 100644
--- a/libiqxmlrpc/ssl_lib.cc
+++ b/libiqxmlrpc/ssl_lib.cc
@@ -231,6 +231,7 @@ Ctx::Ctx():
 
 Ctx::~Ctx()
 {
+  SSL_CTX_free( impl_->ctx );
 }
 
 SSL_CTX*
-- 
2.43.0


From 7af8bc87a19047df43b718362b2d852bc61d3077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:55:52 +0000
Subject: [PATCH 37/43] fix: end a TLS connection that is shut down in both
 directions

---
 libiqxmlrpc/ssl_connection.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libiqxmlrpc/ssl_connection.cc b/libiqxmlrpc/ssl_connection.cc
index 8eb4624..51a4d86 100644
--- a/libiqxmlrpc/ssl_connection.cc
+++ b/libiqxmlrpc/ssl_connection.cc
@@ -200,7 +200,7 @@ void ssl::Reaction_connection::switch_state( bool& terminate )
   catch( const ssl::connection_close& )
   {
 //    std::cout << "connection_close " << e.is_clean() << std::endl;
-    reg_shutdown();
+    terminate = reg_shutdown();
   }
 }
 
-- 
2.43.0


From 01f6977d967366ea9a8a5e8b9f51e4cc014ecfd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:55:52 +0000
Subject: [PATCH 38/43] fix: forget TLS errors of other connections before an
 operation

---
 libiqxmlrpc/ssl_connection.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libiqxmlrpc/ssl_connection.cc b/libiqxmlrpc/ssl_connection.cc
index 51a4d86..ca72557 100644
--- a/libiqxmlrpc/ssl_connection.cc
+++ b/libiqxmlrpc/ssl_connection.cc
@@ -44,6 +44,7 @@ void ssl::Connection::post_connect()
 void ssl::Connection::ssl_accept()
 {
   ssl_ctx->prepare_verify(ssl, true);
+  ERR_clear_error();
   int ret = SSL_accept( ssl );
 
   if( ret != 1 )
@@ -54,6 +55,7 @@ void ssl::Connection::ssl_accept()
 void ssl::Connection::ssl_connect()
 {
   ssl_ctx->prepare_verify(ssl, false);
+  ERR_clear_error();
   int ret = SSL_connect( ssl );
 
   if( ret != 1 )
@@ -66,6 +68,7 @@ void ssl::Connection::shutdown()
   if( shutdown_recved() && shutdown_sent() )
     return;
 
+  ERR_clear_error();
   int ret = SSL_shutdown( ssl );
   switch( ret )
   {
@@ -85,6 +88,7 @@ void ssl::Connection::shutdown()
 
 size_t ssl::Connection::send( const char* data, size_t len )
 {
+  ERR_clear_error();
   int ret = SSL_write( ssl, data, static_cast<int>(len) );
 
   if( static_cast<size_t>(ret) != len )
@@ -96,6 +100,7 @@ size_t ssl::Connection::send( const char* data, size_t len )
 
 size_t ssl::Connection::recv( char* buf, size_t len )
 {
+  ERR_clear_error();
   int ret = SSL_read( ssl, buf, static_cast<int>(len) );
 
   if( ret <= 0 )
-- 
2.43.0


From f1f4c1927d3c180fedc624f029f69a3721564b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:06:40 +0000
Subject: [PATCH 39/43] fix: free the connection factory when a server cannot
 be made

---
 libiqxmlrpc/server.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libiqxmlrpc/server.cc b/libiqxmlrpc/server.cc
index 29b23e4..1acd32b 100644
--- a/libiqxmlrpc/server.cc
+++ b/libiqxmlrpc/server.cc
@@ -26,9 +26,9 @@ public:
 
   iqnet::Inet_addr bind_addr;
 
+  std::auto_ptr<iqnet::Accepted_conn_factory> conn_factory;
   std::auto_ptr<iqnet::Reactor_base>          reactor;
   std::auto_ptr<iqnet::Reactor_interrupter>   interrupter;
-  std::auto_ptr<iqnet::Accepted_conn_factory> conn_factory;
   std::auto_ptr<iqnet::Acceptor>              acceptor;
   iqnet::Firewall_base* firewall;
 
@@ -50,9 +50,9 @@ public:
     Executor_factory_base* ef):
       exec_factory(ef),
       bind_addr(addr),
+      conn_factory(cf),
       reactor(ef->create_reactor()),
       interrupter(new iqnet::Reactor_interrupter(reactor.get())),
-      conn_factory(cf),
       acceptor(0),
       firewall(0),
       exit_flag(false),
-- 
2.43.0


From 218973ada15dd8d7cfff39ac3c98f5e011e6da7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:25:31 +0000
Subject: [PATCH 40/43] fix: reject params and values outside the element they
 belong to

---
 libiqxmlrpc/request_parser.cc  | 14 ++++++++++----
 libiqxmlrpc/response_parser.cc | 10 ++++++++++
 libiqxmlrpc/response_parser.h  |  3 +++
 3 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/libiqxmlrpc/request_parser.cc b/libiqxmlrpc/request_parser.cc
index 34f85dd..1156ba9 100644
--- a/libiqxmlrpc/request_parser.cc
+++ b/libiqxmlrpc/request_parser.cc
@@ -15,7 +15,8 @@ enum RequestBuilderState {
   METHOD_NAME,
   PARAMS,
   PARAM,
-  VALUE
+  VALUE,
+  END
 };
 
 RequestBuilder::RequestBuilder(Parser& parser):
@@ -28,7 +29,6 @@ RequestBuilder::RequestBuilder(Parser& parser):
     { METHOD_NAME, PARAMS, "params" },
     { PARAMS, PARAM, "param" },
     { PARAM, VALUE, "value" },
-    { VALUE, PARAM, "param" },
     { 0, 0, 0 }
   };
   state_.set_transitions(trans);
@@ -51,8 +51,14 @@ RequestBuilder::do_visit_element(const std::string& tagname)
 void
 RequestBuilder::do_visit_element_end(const std::string& tagname)
 {
-  if (tagname == "param" && state_.get_state() != VALUE)
-    throw XML_RPC_violation(parser_.context());
+  if (tagname == "param") {
+    if (state_.get_state() != VALUE)
+      throw XML_RPC_violation(parser_.context());
+
+    state_.set_state(PARAMS);
+  } else if (tagname == "params") {
+    state_.set_state(END);
+  }
 }
 
 Request*
diff --git a/libiqxmlrpc/response_parser.cc b/libiqxmlrpc/response_parser.cc
index a2a963f..478f7f1 100644
--- a/libiqxmlrpc/response_parser.cc
+++ b/libiqxmlrpc/response_parser.cc
@@ -48,6 +48,16 @@ ResponseBuilder::do_visit_element(const std::string& tagname)
   }
 }
 
+void
+ResponseBuilder::do_visit_element_end(const std::string&)
+{
+  const int state = state_.get_state();
+
+  // elements end only after the value they are there for
+  if (state != OK_PARAM_VALUE && state != FAULT_RESPONSE_VALUE)
+    throw XML_RPC_violation(parser_.context());
+}
+
 void
 ResponseBuilder::parse_ok()
 {
diff --git a/libiqxmlrpc/response_parser.h b/libiqxmlrpc/response_parser.h
index 0370ccc..83c2587 100644
--- a/libiqxmlrpc/response_parser.h
+++ b/libiqxmlrpc/response_parser.h
@@ -22,6 +22,9 @@ private:
   virtual void
   do_visit_element(const std::string&);
 
+  virtual void
+  do_visit_element_end(const std::string&);
+
   void
   parse_ok();
 
-- 
2.43.0


From b0da12144896982ce4197c609f17a959396eb646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:01:45 +0000
Subject: [PATCH 41/43] fix: do not use a kept connection after another proxy
 was named

---
 libiqxmlrpc/client.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libiqxmlrpc/client.cc b/libiqxmlrpc/client.cc
index dc10142..82ce73f 100644
--- a/libiqxmlrpc/client.cc
+++ b/libiqxmlrpc/client.cc
@@ -98,6 +98,7 @@ Client_base::~Client_base()
 void Client_base::set_proxy( const iqnet::Inet_addr& addr )
 {
   do_set_proxy( addr );
+  impl_->conn_cache.reset();
 }
 
 void Client_base::set_timeout( int seconds )
-- 
2.43.0


From 979bd6cb988f5e6c99fadf5f94ec3baa2f1ad144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:46:24 +0000
Subject: [PATCH 42/43] fix: do not let long client timeouts overflow and
 expire at once

---
 libiqxmlrpc/client_opts.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libiqxmlrpc/client_opts.h b/libiqxmlrpc/client_opts.h
index 6380dda..2bf6a88 100644
--- a/libiqxmlrpc/client_opts.h
+++ b/libiqxmlrpc/client_opts.h
@@ -4,6 +4,7 @@
 #ifndef _iqxmlrpc_client_opts_h_
 #define _iqxmlrpc_client_opts_h_
 
+#include <limits.h>
 #include <string>
 #include "inet_addr.h"
 #include "xheaders.h"
@@ -40,6 +41,10 @@ public:
 
   void set_timeout( int seconds )
   {
+    // waits are counted in milliseconds
+    if( seconds > INT_MAX / 1000 )
+      seconds = INT_MAX / 1000;
+
     if( (timeout_ = seconds) > 0 )
       non_blocking_flag_ = true;
   }
-- 
2.43.0


From cb41af0fc4ec0fae2e5c124d76a202ecfa8983b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:46:24 +0000
Subject: [PATCH 43/43] fix: refuse line ends in URI, host name and X- headers
 of a client's request

---
 libiqxmlrpc/http.cc | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/libiqxmlrpc/http.cc b/libiqxmlrpc/http.cc
index 793e4a0..49b0455 100644
--- a/libiqxmlrpc/http.cc
+++ b/libiqxmlrpc/http.cc
@@ -72,6 +72,16 @@ void expect_continue(const std::string& val)
 } // namespace validator
 
 
+namespace {
+
+// what belongs to one line of a header must not start another one
+inline bool has_line_end(const std::string& s)
+{
+  return s.find_first_of(names::crlf) != std::string::npos;
+}
+
+} // anonymous namespace
+
 Header::Header(Verification_level lev):
   ver_level_(lev)
 {
@@ -258,6 +268,9 @@ Request_header::Request_header(
 ):
   uri_(req_uri)
 {
+  if (has_line_end(req_uri) || has_line_end(vhost))
+    throw Malformed_packet("line end in URI or host name");
+
   std::ostringstream host_opt;
   host_opt << vhost << ":" << port;
   set_option(names::host, host_opt.str());
@@ -287,6 +300,9 @@ void Header::get_xheaders(iqxmlrpc::XHeaders& xheaders) const
 void Header::set_xheaders(const iqxmlrpc::XHeaders& xheaders)
 {
   for( iqxmlrpc::XHeaders::const_iterator it = xheaders.begin(); it!=xheaders.end(); ++it ) {
+    if (has_line_end(it->first) || has_line_end(it->second))
+      throw iqxmlrpc::Error_xheader("line end in X- header");
+
     set_option(it->first, it->second);
   }
 }
-- 
2.43.0

