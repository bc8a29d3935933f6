From 24ee96bb74aaee35ec2156e5652a53b1c0ee33f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:45 +0000
Subject: [PATCH 01/24] fix: accept unsigned values of 2^31 and above

asUint32 went through std::stoi, which throws for the upper half of the
range, so messages whose serial (or reply serial) is 2^31 or more were
dropped.
---
 src/dbus_type.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dbus_type.cpp b/src/dbus_type.cpp
index ae8c90f..94f6a56 100644
--- a/src/dbus_type.cpp
+++ b/src/dbus_type.cpp
@@ -47,7 +47,7 @@ uint8_t DBus::Type::asByte(const Generic& v)
 
 uint32_t DBus::Type::asUint32(const Generic& v)
 {
-    return std::stoi(Type::asString(v));
+    return std::stoul(Type::asString(v));
 }
 
 // Generate a compact, machine-friendly, version of the data.
-- 
2.43.0


From a816c48ac0ac5d2c3f64503010e4f0b44a638f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:45 +0000
Subject: [PATCH 02/24] fix: keep the flags of a received method call

They were reset to 0, so isReplyExpected() was true for every received
call, including those sent with NO_REPLY_EXPECTED.
---
 src/dbus_message_methodcall.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/dbus_message_methodcall.cpp b/src/dbus_message_methodcall.cpp
index 8f4408a..0919db3 100644
--- a/src/dbus_message_methodcall.cpp
+++ b/src/dbus_message_methodcall.cpp
@@ -31,7 +31,6 @@ DBus::Message::MethodCall::MethodCall(const DBus::Type::Struct& header,
     : Message::Base(header, body)
     , m_Name(m_Header.path, m_Header.interface, m_Header.member)
 {
-    m_Header.flags = 0;
     m_Header.type = Message::Header::TYPE_METHOD_CALL;
 }
 
-- 
2.43.0


From 912d6d954b609a39bdca299635162f76e11c61d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:45 +0000
Subject: [PATCH 03/24] fix: keep the text of a received error, and accept
 errors without one

The text was assigned to a local variable that shadows the member, so
getMessage() was always empty. An error reply with no body, or whose first
argument is not a string, could not be constructed at all and the failure
callback of its call never ran.
---
 src/dbus_message_error.cpp | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/src/dbus_message_error.cpp b/src/dbus_message_error.cpp
index 211c5a2..f2a7052 100644
--- a/src/dbus_message_error.cpp
+++ b/src/dbus_message_error.cpp
@@ -44,17 +44,10 @@ DBus::Message::Error::Error(const DBus::Type::Struct& header,
     const std::string& body)
     : Message::Base(header, body)
 {
-    const bool isLittleEndian = Type::asByte(header[0]) == 'l' ? true : false;
-
-    DBus::Type::Struct dest;
-    dest.setSignature("(s)");
-
-    MessageIStream stream((uint8_t*)body.data(), body.size(),
-        isLittleEndian ? __BYTE_ORDER != __LITTLE_ENDIAN
-                       : __BYTE_ORDER != __BIG_ENDIAN);
-    dest.unmarshall(stream);
-
-    const std::string m_Message = DBus::Type::asString(dest[0]);
+    // The text is optional: it is the first parameter, when that is a string
+    if (getParameterCount() && getParameter(0).type() == typeid(DBus::Type::String)) {
+        m_Message = DBus::Type::asString(getParameter(0));
+    }
     m_SerialReplyingTo = getReplySerial();
 
     Log::write(Log::WARNING,
-- 
2.43.0


From 04c7d5914d9325309ed0c28b84faa814da3474a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:45 +0000
Subject: [PATCH 04/24] fix: align a double to 8 bytes when reading it

---
 src/dbus_messageistream.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dbus_messageistream.cpp b/src/dbus_messageistream.cpp
index 9b2c48f..9103196 100644
--- a/src/dbus_messageistream.cpp
+++ b/src/dbus_messageistream.cpp
@@ -67,6 +67,7 @@ void MessageIStream::read(uint8_t* value, size_t size)
 void MessageIStream::read(double* value)
 {
     uint8_t bytes[sizeof(double)];
+    align(sizeof(double));
     read(bytes, sizeof(double));
     if (m_swapByteOrder)
         std::reverse(std::begin(bytes), std::end(bytes));
-- 
2.43.0


From c10c3e5c21493d685e4a884eb98e0590a38f2330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:03 +0000
Subject: [PATCH 05/24] fix: a variant has the alignment of its signature, one
 byte

Arrays of variants were written and expected with padding to 8 bytes before
the first element, which no other implementation does.
---
 src/dbus_type_variant.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dbus_type_variant.h b/src/dbus_type_variant.h
index 343c288..4357c60 100644
--- a/src/dbus_type_variant.h
+++ b/src/dbus_type_variant.h
@@ -38,7 +38,7 @@ namespace Type {
         Variant(const DBus::Type::Uint32& v);
         Variant(const DBus::Type::Signature& v);
 
-        size_t getAlignment() const { return 8; }
+        size_t getAlignment() const { return 1; }
         void marshall(MessageOStream& stream) const;
         void unmarshall(MessageIStream& stream);
 
-- 
2.43.0


From d3798ae754eb1e93bf57d2d8e6a05d2697cf6db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:03 +0000
Subject: [PATCH 06/24] fix: match a path namespace against the path itself,
 and "/" against all

A signal whose path equals the namespace threw out_of_range instead of
matching (and stopped the remaining rules from being tried), and the root
namespace matched nothing. A malformed rule read outside its tokens: it is
now refused with an exception.
---
 src/dbus_matchrule.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/dbus_matchrule.cpp b/src/dbus_matchrule.cpp
index 38c828e..89ff0c3 100644
--- a/src/dbus_matchrule.cpp
+++ b/src/dbus_matchrule.cpp
@@ -38,10 +38,12 @@ DBus::MatchRule::MatchRule(const std::string& rule,
         // 2. Then split each at the equals
         std::vector<std::string> keyvalue;
         boost::split(keyvalue, param, boost::is_any_of("="));
+        if (keyvalue.size() < 2 || keyvalue[1].size() < 2) {
+            throw std::runtime_error("Match rule is malformed: " + rule);
+        }
 
         // Valid keys are: type, sender, interface, member, path, path_namespace,
-        // destination, arg*, eavesdrop We're happy for [] to throw on malformed
-        // rules, since that's watch we'd do anyway in this case
+        // destination, arg*, eavesdrop
 
         // 3. Strip the single quotes from the value
         keyvalue[1].pop_back();
@@ -105,16 +107,14 @@ bool DBus::MatchRule::isMatched(const DBus::Message::Signal& signal)
     // For example, path_namespace='/com/example/foo' would match signals sent
     // by /com/example/foo or by /com/example/foo/bar, but not by
     // /com/example/foobar.
-    if (path_namespace != "") {
+    if (path_namespace != "" && path_namespace != "/" && path_namespace != signal_path) {
         if (signal_path.find(path_namespace) != 0) {
             return false;
         }
 
         // This handles the 3rd case, by checking the character _after_ the match is
-        // found: if it's not the terminator or another path (i.e. a new /) the
-        // search fails.
-        auto next_char = signal_path.at(path_namespace.size());
-        if (next_char != '\0' && next_char != '/') {
+        // found: if it's not another path (i.e. a new /) the search fails.
+        if (signal_path.at(path_namespace.size()) != '/') {
             return false;
         }
     }
-- 
2.43.0


From 3fe98038b49d98dd5c1b29b060689cd3d8ac5b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:03 +0000
Subject: [PATCH 07/24] fix: refuse unknown types in signatures

Type::create returned an empty value for them, which consumes no data when
it is unmarshalled, so one incoming message with an array of an unknown (or
empty) type kept the connection's thread allocating forever.
---
 src/dbus_type.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dbus_type.cpp b/src/dbus_type.cpp
index 94f6a56..b3d3b75 100644
--- a/src/dbus_type.cpp
+++ b/src/dbus_type.cpp
@@ -149,7 +149,7 @@ DBus::Type::Generic DBus::Type::create(const std::string& type)
     Log::write(DBus::Log::ERROR,
         "DBus :: Can not create a signature type of (%s)\n", type.c_str());
 
-    return Type::Generic();
+    throw std::runtime_error("DBus type error: Unknown type in signature");
 }
 
 std::string
-- 
2.43.0


From bf21e29fe43b81d06102f9e2fa8685624af51113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:58 +0000
Subject: [PATCH 08/24] fix: bound the recursion of decoding

A message of nested variants recursed once per level without limit, and a
signature with an unmatched bracket forever; either overflowed the stack of
the connection's thread. Nesting is limited to the 64 levels of the
specification, and unmatched brackets are refused.
---
 src/dbus_messageistream.cpp | 12 ++++++++++++
 src/dbus_messageistream.h   |  6 ++++++
 src/dbus_type.cpp           |  4 ++++
 3 files changed, 22 insertions(+)

diff --git a/src/dbus_messageistream.cpp b/src/dbus_messageistream.cpp
index 9103196..db535f9 100644
--- a/src/dbus_messageistream.cpp
+++ b/src/dbus_messageistream.cpp
@@ -28,6 +28,7 @@ MessageIStream::MessageIStream(const uint8_t* data, size_t size,
     : m_data(data, size)
     , m_offset(0)
     , m_swapByteOrder(swapByteOrder)
+    , m_depth(0)
 {
 }
 
@@ -35,6 +36,7 @@ MessageIStream::MessageIStream(MessageIStream& stream, size_t size)
     : m_data(stream.m_data.data(), size)
     , m_offset(stream.m_offset)
     , m_swapByteOrder(stream.m_swapByteOrder)
+    , m_depth(stream.m_depth)
 {
     stream.m_data.remove_prefix(size);
     stream.m_offset += size;
@@ -86,6 +88,16 @@ void MessageIStream::read(std::string& string, size_t size)
     m_offset += size;
 }
 
+void MessageIStream::enterValue()
+{
+    if (m_depth > MAX_DEPTH) {
+        throw std::out_of_range("Read value error: Values are nested too deeply");
+    }
+    ++m_depth;
+}
+
+void MessageIStream::leaveValue() { --m_depth; }
+
 bool MessageIStream::empty() { return m_data.empty(); }
 
 } // namespace DBus
diff --git a/src/dbus_messageistream.h b/src/dbus_messageistream.h
index eadaa79..30f974c 100644
--- a/src/dbus_messageistream.h
+++ b/src/dbus_messageistream.h
@@ -28,6 +28,7 @@ class MessageIStream {
     OctetBuffer m_data;
     size_t m_offset;
     bool m_swapByteOrder;
+    size_t m_depth;
 
     template <class T>
     T swap(T value) const
@@ -53,6 +54,11 @@ public:
     MessageIStream(MessageIStream& stream, size_t size);
     bool empty();
 
+    // Values nest at most 64 containers deep
+    static const size_t MAX_DEPTH = 64;
+    void enterValue();
+    void leaveValue();
+
     void align(size_t alignment);
     uint8_t read();
     void read(uint8_t* value, size_t size);
diff --git a/src/dbus_type.cpp b/src/dbus_type.cpp
index b3d3b75..db02eb0 100644
--- a/src/dbus_type.cpp
+++ b/src/dbus_type.cpp
@@ -255,7 +255,9 @@ void DBus::Type::unmarshallData(DBus::Type::Generic& result,
 #define TYPE_UNMARSHALL_DATA(typename)                    \
     if (type[0] == typename ::s_StaticTypeCode[0]) {      \
         typename& v = boost::any_cast<typename&>(result); \
+        stream.enterValue();                              \
         v.unmarshall(stream);                             \
+        stream.leaveValue();                              \
         return;                                           \
     }
 
@@ -378,6 +380,7 @@ std::string DBus::Type::extractSignature(const std::string& declaration,
         //
         Log::write(Log::ERROR, "DBus :: The declaration is invalid due to "
                                "mis-matched brackets in the array signature.");
+        throw std::runtime_error("DBus type error: Mis-matched brackets in signature");
     }
     // Handle dictentry
     else if (declaration[idx] == '{') {
@@ -402,6 +405,7 @@ std::string DBus::Type::extractSignature(const std::string& declaration,
         //
         Log::write(Log::ERROR, "DBus :: The declaration is invalid due to "
                                "mis-matched braces in the dictentry signature.");
+        throw std::runtime_error("DBus type error: Mis-matched brackets in signature");
     }
 
     result += declaration[idx];
-- 
2.43.0


From 49ce9f43eeacaaae1e152050d27adf88abcfa544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:58 +0000
Subject: [PATCH 09/24] fix: survive callbacks that throw something other than
 std::exception

---
 src/dbus_messageprotocol.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dbus_messageprotocol.cpp b/src/dbus_messageprotocol.cpp
index c4ebdb1..c425a1d 100644
--- a/src/dbus_messageprotocol.cpp
+++ b/src/dbus_messageprotocol.cpp
@@ -246,6 +246,10 @@ void DBus::MessageProtocol::onBodyComplete(const std::string& body)
         // Catch exceptions from std::function such as bad_function_call. No action required.
         Log::write(Log::INFO, "DBus :: Exception caught in onBodyComplete: %s\n", e.what());
     }
+    catch(...)
+    {
+        Log::write(Log::INFO, "DBus :: Unknown exception caught in onBodyComplete\n");
+    }
 
     startMessage();
 }
-- 
2.43.0


From 4248330dccb68353acc9513eb4fcaf488966030e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:58 +0000
Subject: [PATCH 10/24] fix: stop dispatching after a framing error

After a header that cannot be a message the parser was restarted at an
arbitrary position (and kept the bytes it had cached), so the rest of the
stream could be dispatched as messages the peer never sent. The input is now
ignored from that point, as the position of the next message is unknown.
---
 src/dbus_messageprotocol.cpp | 6 +++++-
 src/dbus_native.cpp          | 5 ++++-
 src/dbus_transport.cpp       | 4 +++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/dbus_messageprotocol.cpp b/src/dbus_messageprotocol.cpp
index c425a1d..299525f 100644
--- a/src/dbus_messageprotocol.cpp
+++ b/src/dbus_messageprotocol.cpp
@@ -68,7 +68,11 @@ DBus::MessageProtocol::MessageProtocol()
     reset();
 }
 
-void DBus::MessageProtocol::reset() { startMessage(); }
+void DBus::MessageProtocol::reset()
+{
+    m_octetCache.clear();
+    startMessage();
+}
 
 void DBus::MessageProtocol::setMethodCallHandler(
     const DBus::Message::CallbackFunctionMethodCall& callback)
diff --git a/src/dbus_native.cpp b/src/dbus_native.cpp
index acca103..a662f9c 100644
--- a/src/dbus_native.cpp
+++ b/src/dbus_native.cpp
@@ -64,9 +64,9 @@ void DBus::Native::onReceiveAuthData(OctetBuffer& buffer)
         const size_t bufferSize = buffer.size();
         if (m_AuthenticationProtocol->onReceiveData(buffer)) {
             m_Stats.bytes_auth = bufferSize - buffer.size();
-            onReceiveMessageData(buffer);
             m_Transport->setDataHandler(std::bind(&Native::onReceiveMessageData, this,
                 std::placeholders::_1));
+            onReceiveMessageData(buffer);
         }
     } catch (const std::exception& e) {
         DBus::Log::write(
@@ -91,6 +91,9 @@ void DBus::Native::onReceiveMessageData(OctetBuffer& buffer)
             "DBus :: Native : onReceiveMessageData has thrown an exception : %s\n",
             e.what());
         m_MessageProtocol->reset();
+        // There is no way to find the start of the next message, so nothing
+        // that follows can be trusted
+        m_Transport->setDataHandler([](OctetBuffer&) {});
     }
 }
 
diff --git a/src/dbus_transport.cpp b/src/dbus_transport.cpp
index c5b8334..8b0a30b 100644
--- a/src/dbus_transport.cpp
+++ b/src/dbus_transport.cpp
@@ -52,7 +52,9 @@ void DBus::Transport::handle_read_data(const boost::system::error_code& error,
 {
     boost::recursive_mutex::scoped_lock guard(m_CallbackMutex);
     OctetBuffer buffer(m_DataBuffer, bytes_transferred);
-    m_ReceiveDataCallback(buffer);
+    // The callback may install another one in its place
+    const ReceiveDataCallbackFunction callback(m_ReceiveDataCallback);
+    callback(buffer);
 
     if (error) {
         if (error.category() == boost::asio::error::misc_category && error.value() == boost::asio::error::misc_errors::eof) {
-- 
2.43.0


From 558a3f918e748098a501878a00b7adfcb3ca168b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:58 +0000
Subject: [PATCH 11/24] fix: let handlers unregister themselves and remove
 match rules

The running handler was destroyed while it executed, and removing a rule
from a rule handler invalidated the iterator of the loop that called it.
---
 src/dbus_native.cpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/dbus_native.cpp b/src/dbus_native.cpp
index a662f9c..f056648 100644
--- a/src/dbus_native.cpp
+++ b/src/dbus_native.cpp
@@ -190,7 +190,9 @@ void DBus::Native::onReceiveMethodCall(
     auto it = m_MethodCallMap.find(method.getFullName());
 
     if (it != m_MethodCallMap.end()) {
-        it->second(method);
+        // A copy, since the handler may unregister itself
+        const auto handler = it->second;
+        handler(method);
     }
 }
 
@@ -229,14 +231,23 @@ void DBus::Native::onReceiveSignal(const DBus::Message::Signal& signal)
     auto it = m_SignalMap.find(fullname);
 
     if (it != m_SignalMap.end()) {
-        it->second(signal);
+        // A copy, since the handler may unregister itself
+        const auto handler = it->second;
+        handler(signal);
     }
 
     {
         boost::recursive_mutex::scoped_lock guard(m_RulesMapMutex);
-        for (auto it : m_RulesMap) {
-            if (it.second.isMatched(signal)) {
-                it.second.invoke(signal);
+        // Work on copies, since a handler may add and remove rules; the removed
+        // ones are skipped
+        const std::map<std::string, MatchRule> rules(m_RulesMap);
+        for (const auto& entry : rules) {
+            auto it = m_RulesMap.find(entry.first);
+            if (it != m_RulesMap.end()) {
+                MatchRule rule(it->second);
+                if (rule.isMatched(signal)) {
+                    rule.invoke(signal);
+                }
             }
         }
     }
-- 
2.43.0


From 69e6b7afa6c257196f263550fe0835eab67e9ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:58 +0000
Subject: [PATCH 12/24] fix: forget a call before running its reply callback

A callback that threw left its call registered, so a repeated reply ran the
callback again; and every other thread's sendMethodCall waited for the
callback to finish because the queue stayed locked while it ran.
---
 src/dbus_native.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/dbus_native.cpp b/src/dbus_native.cpp
index f056648..1735d00 100644
--- a/src/dbus_native.cpp
+++ b/src/dbus_native.cpp
@@ -199,13 +199,18 @@ void DBus::Native::onReceiveMethodCall(
 void DBus::Native::onReceiveMethodReturn(
     const DBus::Message::MethodReturn& result)
 {
+    ++m_Stats.count_receive_methodreturns;
+
     boost::recursive_mutex::scoped_lock guard(m_MessageQueueMutex);
     auto it = m_MessageQueue.find(result.m_SerialReplyingTo);
-    ++m_Stats.count_receive_methodreturns;
 
     if (it != m_MessageQueue.end()) {
-        it->second.success(result);
+        // The call is answered, whatever the callback does, and the callback
+        // must not hold up callers in other threads
+        const CallbackPair callbacks(it->second);
         m_MessageQueue.erase(it);
+        guard.unlock();
+        callbacks.success(result);
     }
 }
 
@@ -214,12 +219,15 @@ void DBus::Native::onReceiveError(const DBus::Message::Error& error)
     boost::recursive_mutex::scoped_lock guard(m_MessageQueueMutex);
     auto it = m_MessageQueue.find(error.getSerialOfReply());
 
+    DBus::Log::write(DBus::Log::WARNING, "DBus :: Error : %s\n",
+        error.getMessage().c_str());
+
     if (it != m_MessageQueue.end()) {
-        it->second.failure(error);
+        const CallbackPair callbacks(it->second);
         m_MessageQueue.erase(it);
+        guard.unlock();
+        callbacks.failure(error);
     }
-    DBus::Log::write(DBus::Log::WARNING, "DBus :: Error : %s\n",
-        error.getMessage().c_str());
 }
 
 void DBus::Native::onReceiveSignal(const DBus::Message::Signal& signal)
-- 
2.43.0


From f12ffa03c554400b6ddeff8c1d9e18f83d9d8c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:58 +0000
Subject: [PATCH 13/24] fix: initialise the message header

A reply without a REPLY_SERIAL field was matched against whatever was in
memory.
---
 src/dbus_message.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dbus_message.h b/src/dbus_message.h
index 1c5e865..00f11c6 100644
--- a/src/dbus_message.h
+++ b/src/dbus_message.h
@@ -115,10 +115,10 @@ namespace Message {
             HEADER_FIELD_COUNT // = HEADER_UNIX_FDS+1
         } HeaderFields;
 
-        uint8_t flags;
-        uint8_t type;
-        uint32_t serial;
-        uint32_t replySerial;
+        uint8_t flags = 0;
+        uint8_t type = TYPE_INVALID;
+        uint32_t serial = 0;
+        uint32_t replySerial = 0;
 
         std::string path;
         std::string interface;
-- 
2.43.0


From 16900987d3700c4f7cd580c124ce0aaccf8e4b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:58 +0000
Subject: [PATCH 14/24] fix: count what the statistics say they count

Counters incremented by several threads were plain integers and lost
updates; received errors and read bytes were never counted, and of the
authentication bytes only those of the last read.
---
 src/dbus_native.cpp    |  7 +++++--
 src/dbus_native.h      | 22 ++++++++++++----------
 src/dbus_transport.cpp |  1 +
 src/dbus_transport.h   | 11 ++++++-----
 4 files changed, 24 insertions(+), 17 deletions(-)

diff --git a/src/dbus_native.cpp b/src/dbus_native.cpp
index 1735d00..958e4bf 100644
--- a/src/dbus_native.cpp
+++ b/src/dbus_native.cpp
@@ -62,8 +62,9 @@ void DBus::Native::onReceiveAuthData(OctetBuffer& buffer)
 {
     try {
         const size_t bufferSize = buffer.size();
-        if (m_AuthenticationProtocol->onReceiveData(buffer)) {
-            m_Stats.bytes_auth = bufferSize - buffer.size();
+        const bool authenticated = m_AuthenticationProtocol->onReceiveData(buffer);
+        m_Stats.bytes_auth += bufferSize - buffer.size();
+        if (authenticated) {
             m_Transport->setDataHandler(std::bind(&Native::onReceiveMessageData, this,
                 std::placeholders::_1));
             onReceiveMessageData(buffer);
@@ -216,6 +217,8 @@ void DBus::Native::onReceiveMethodReturn(
 
 void DBus::Native::onReceiveError(const DBus::Message::Error& error)
 {
+    ++m_Stats.count_receive_errors;
+
     boost::recursive_mutex::scoped_lock guard(m_MessageQueueMutex);
     auto it = m_MessageQueue.find(error.getSerialOfReply());
 
diff --git a/src/dbus_native.h b/src/dbus_native.h
index 61cdb8f..10fc803 100644
--- a/src/dbus_native.h
+++ b/src/dbus_native.h
@@ -23,6 +23,7 @@
 #include "dbus_message.h"
 #include "dbus_messageprotocol.h"
 #include "dbus_transport.h"
+#include <atomic>
 
 namespace DBus {
 
@@ -136,17 +137,18 @@ private:
         Message::CallbackFunctionError failure;
     };
 
+    // Updated by the threads that send and by the one that receives
     struct Stats {
-        size_t bytes_auth = 0;
-        size_t bytes_message = 0;
-        size_t count_sent_methodcalls = 0;
-        size_t count_sent_methodreturns = 0;
-        size_t count_sent_errors = 0;
-        size_t count_sent_signals = 0;
-        size_t count_receive_methodcalls = 0;
-        size_t count_receive_methodreturns = 0;
-        size_t count_receive_errors = 0;
-        size_t count_receive_signals = 0;
+        std::atomic<size_t> bytes_auth { 0 };
+        std::atomic<size_t> bytes_message { 0 };
+        std::atomic<size_t> count_sent_methodcalls { 0 };
+        std::atomic<size_t> count_sent_methodreturns { 0 };
+        std::atomic<size_t> count_sent_errors { 0 };
+        std::atomic<size_t> count_sent_signals { 0 };
+        std::atomic<size_t> count_receive_methodcalls { 0 };
+        std::atomic<size_t> count_receive_methodreturns { 0 };
+        std::atomic<size_t> count_receive_errors { 0 };
+        std::atomic<size_t> count_receive_signals { 0 };
     } m_Stats;
 
     mutable boost::recursive_mutex m_MessageQueueMutex;
diff --git a/src/dbus_transport.cpp b/src/dbus_transport.cpp
index 8b0a30b..e41b906 100644
--- a/src/dbus_transport.cpp
+++ b/src/dbus_transport.cpp
@@ -51,6 +51,7 @@ void DBus::Transport::handle_read_data(const boost::system::error_code& error,
     std::size_t bytes_transferred)
 {
     boost::recursive_mutex::scoped_lock guard(m_CallbackMutex);
+    m_Stats.bytes_read += bytes_transferred;
     OctetBuffer buffer(m_DataBuffer, bytes_transferred);
     // The callback may install another one in its place
     const ReceiveDataCallbackFunction callback(m_ReceiveDataCallback);
diff --git a/src/dbus_transport.h b/src/dbus_transport.h
index 130d75f..c59502e 100644
--- a/src/dbus_transport.h
+++ b/src/dbus_transport.h
@@ -19,6 +19,7 @@
 #define DBUS_TRANSPORT_H
 
 #include "dbus_octetbuffer.h"
+#include <atomic>
 #include <boost/asio.hpp>
 #include <boost/thread.hpp>
 
@@ -76,11 +77,11 @@ protected:
 
 private:
     struct Stats {
-        size_t count_messagessent = 0;
-        size_t count_messagesqueued = 0;
-        size_t count_messagespumped = 0;
-        size_t bytes_sent = 0;
-        size_t bytes_read = 0;
+        std::atomic<size_t> count_messagessent { 0 };
+        std::atomic<size_t> count_messagesqueued { 0 };
+        std::atomic<size_t> count_messagespumped { 0 };
+        std::atomic<size_t> bytes_sent { 0 };
+        std::atomic<size_t> bytes_read { 0 };
     } m_Stats;
 };
 } // namespace DBus
-- 
2.43.0


From bfeea18351e3acc711ed3e44c268e7e0ad123963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:44 +0000
Subject: [PATCH 15/24] fix: consume each line of the authentication dialogue

The line was left in the buffer and executed again for every later line, so
a dialogue in which the server sends more than one line (descriptor passing,
or a rejection followed by another attempt) never completed.
---
 src/dbus_auth.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dbus_auth.cpp b/src/dbus_auth.cpp
index 21e9f5a..b338935 100644
--- a/src/dbus_auth.cpp
+++ b/src/dbus_auth.cpp
@@ -70,8 +70,8 @@ bool DBus::AuthenticationProtocol::processData()
     const size_t pos = m_data.find("\r\n");
     if (pos != std::string::npos) {
         std::string command(m_data.data(), pos + 2);
+        m_data.erase(0, pos + 2);
         return onCommand(command);
-        m_data = m_data.substr(pos + 2);
     };
 
     return false;
-- 
2.43.0


From 88fad91298d7cc44950be59c60fc061f44339d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:44 +0000
Subject: [PATCH 16/24] fix: begin when the server refuses to pass descriptors,
 and only when asked

An ERROR answer to NEGOTIATE_UNIX_FD left the handshake waiting forever,
although the protocol says that it continues without descriptor passing. An
AGREE_UNIX_FD that answers nothing made the client send BEGIN before it was
authenticated.
---
 src/dbus_auth.cpp | 16 +++++++++++++++-
 src/dbus_auth.h   |  1 +
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/dbus_auth.cpp b/src/dbus_auth.cpp
index b338935..b79a398 100644
--- a/src/dbus_auth.cpp
+++ b/src/dbus_auth.cpp
@@ -34,7 +34,9 @@ AGREE   ---->
 
 DBus::AuthenticationProtocol::AuthenticationProtocol(
     std::shared_ptr<Transport>& transport)
-    : m_Transport(transport)
+    : m_AuthType(AUTH_BASIC)
+    , m_Negotiating(false)
+    , m_Transport(transport)
 {
 }
 
@@ -115,6 +117,7 @@ bool DBus::AuthenticationProtocol::onOK(
         return true;
     }
 
+    m_Negotiating = true;
     sendNegotiateUnixFD();
     return false;
 }
@@ -123,6 +126,13 @@ bool DBus::AuthenticationProtocol::onError(const std::string& error_message)
 {
     DBus::Log::write(DBus::Log::ERROR, "DBus :: onError : %s\n",
         error_message.c_str());
+
+    if (m_Negotiating) {
+        // Descriptor passing is not available, but we are authenticated
+        m_Negotiating = false;
+        sendBegin();
+        return true;
+    }
     return false;
 }
 
@@ -140,6 +150,10 @@ bool DBus::AuthenticationProtocol::onRejected(
 bool DBus::AuthenticationProtocol::onAgreeUnixFD()
 {
     DBus::Log::write(DBus::Log::INFO, "DBus :: onAgreeUnixFD\n");
+    if (!m_Negotiating) {
+        return false;
+    }
+    m_Negotiating = false;
     sendBegin();
     return true;
 }
diff --git a/src/dbus_auth.h b/src/dbus_auth.h
index ada3b41..385fd93 100644
--- a/src/dbus_auth.h
+++ b/src/dbus_auth.h
@@ -61,6 +61,7 @@ protected:
 private:
     std::string m_data;
     AuthenticationProtocol::AuthRequired m_AuthType;
+    bool m_Negotiating; // NEGOTIATE_UNIX_FD has been sent, and not answered
     mutable boost::recursive_mutex m_AuthTypeMutex;
     std::shared_ptr<Transport> m_Transport;
 };
-- 
2.43.0


From 34809264847b13243d3f12aed95242b6d90a848d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:44 +0000
Subject: [PATCH 17/24] fix: compare whole command words in the authentication
 dialogue

Any unknown command that starts with a known one, such as OKAY, was taken
for it.
---
 src/dbus_auth.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dbus_auth.cpp b/src/dbus_auth.cpp
index b79a398..88a18d3 100644
--- a/src/dbus_auth.cpp
+++ b/src/dbus_auth.cpp
@@ -229,10 +229,10 @@ bool DBus::AuthenticationProtocol::onCommand(const std::string& command)
                 std::bind(&DBus::AuthenticationProtocol::onCancel, this))
         };
 
+    const std::string name(command.substr(0, command.find_first_of(" \r\n")));
     for (size_t i = 0; i < 8; ++i) {
-        if (command.substr(0, strlen(callback_list[i].first)) == callback_list[i].first) {
-            return callback_list[i].second(
-                command.substr(strlen(callback_list[i].first) + 1));
+        if (name == callback_list[i].first) {
+            return callback_list[i].second(command.substr(name.size() + 1));
         }
     }
 
-- 
2.43.0


From 4fb301e91fe626962173761c950a3145fab817a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:44 +0000
Subject: [PATCH 18/24] fix: write messages one after another

Every message was given to the socket as an asynchronous write of its own,
which asio does not allow while another one is in progress: when the socket
was full the rest of one message was sent after, or in the middle of, the
next. Writing also went on after a write error in the middle of a message.
Data is now queued and written in order, with at most one wait for the
socket to become writable.
---
 src/dbus_transport.cpp | 70 +++++++++++++++++++++++++++++++-----------
 src/dbus_transport.h   | 14 +++++++--
 2 files changed, 63 insertions(+), 21 deletions(-)

diff --git a/src/dbus_transport.cpp b/src/dbus_transport.cpp
index e41b906..556e6bb 100644
--- a/src/dbus_transport.cpp
+++ b/src/dbus_transport.cpp
@@ -26,12 +26,16 @@ DBus::Transport::Transport(const std::string& path)
     : m_Busname(path)
     , m_ReadyToSend(false)
     , m_socket(m_io_context)
+    , m_WriteOffset(0)
+    , m_WriteWaiting(false)
+    , m_WriteFailed(false)
     , m_ShuttingDown(false)
 {
     setDataHandler(
         std::bind(&Transport::onReceiveData, this, std::placeholders::_1));
 
     m_socket.connect(m_Busname);
+    m_socket.non_blocking(true);
 
     // The "special credentials passing NUL byte" is required, even for protocols
     // that can send credentials without needing one. Otherwise, the server may
@@ -143,11 +147,7 @@ void DBus::Transport::sendString(const std::string& data)
 void DBus::Transport::sendOctetDirect(uint8_t data)
 {
     boost::recursive_mutex::scoped_lock guard(m_SendMutex);
-    std::shared_ptr<std::string> buf(new std::string());
-    buf.get()->push_back(static_cast<char>(data));
-    boost::asio::async_write(
-        m_socket, boost::asio::buffer(*buf.get()),
-        boost::bind(&Transport::handle_write_output, this, buf, boost::placeholders::_1, boost::placeholders::_2));
+    queueWrite(std::string(1, static_cast<char>(data)));
 }
 
 void DBus::Transport::sendStringDirect(const std::string& data)
@@ -155,27 +155,61 @@ void DBus::Transport::sendStringDirect(const std::string& data)
     DBus::Log::write(DBus::Log::TRACE, "DBus :: SENDDIRECT: %s\n", data.c_str());
     DBus::Log::writeHex(DBus::Log::TRACE, "DBus :: SENDDIRECT: \n", data);
     boost::recursive_mutex::scoped_lock guard(m_SendMutex);
-
-    // We don't know when the write will complete, so we copy the buffer
-    std::shared_ptr<std::string> buf(new std::string(data));
-    boost::asio::async_write(
-        m_socket, boost::asio::buffer(*buf.get()),
-        boost::bind(&Transport::handle_write_output, this, buf, boost::placeholders::_1, boost::placeholders::_2));
+    queueWrite(data);
     ++m_Stats.count_messagessent;
     m_Stats.bytes_sent += data.length();
 }
 
-void DBus::Transport::handle_write_output(
-    std::shared_ptr<std::string> buf_written,
-    const boost::system::error_code& error, std::size_t bytes_transferred)
+// Entries are written strictly one after another: an entry that does not fit
+// into the socket is finished before the next one is started. The caller holds
+// m_SendMutex.
+void DBus::Transport::queueWrite(const std::string& data)
 {
-    buf_written.reset();
-    if (error) {
-        DBus::Log::write(DBus::Log::ERROR, "DBus :: ERROR in async_write : %s\n",
-            error.message().c_str());
+    if (m_WriteFailed) {
+        return;
+    }
+    m_WriteQueue.push_back(data);
+    if (!m_WriteWaiting) {
+        writeQueued();
+    }
+}
+
+void DBus::Transport::writeQueued()
+{
+    while (!m_WriteQueue.empty()) {
+        const std::string& data = m_WriteQueue.front();
+        boost::system::error_code error;
+        m_WriteOffset += m_socket.write_some(
+            boost::asio::buffer(data.data() + m_WriteOffset, data.size() - m_WriteOffset), error);
+
+        if (error == boost::asio::error::would_block || error == boost::asio::error::try_again) {
+            m_WriteWaiting = true;
+            m_socket.async_wait(
+                boost::asio::local::stream_protocol::socket::wait_write,
+                boost::bind(&Transport::handle_write_ready, this, boost::placeholders::_1));
+            return;
+        }
+        if (error && error != boost::asio::error::interrupted) {
+            DBus::Log::write(DBus::Log::ERROR, "DBus :: ERROR in write : %s\n",
+                error.message().c_str());
+            m_WriteFailed = true;
+            m_WriteQueue.clear();
+            return;
+        }
+        if (m_WriteOffset == data.size()) {
+            m_WriteQueue.pop_front();
+            m_WriteOffset = 0;
+        }
     }
 }
 
+void DBus::Transport::handle_write_ready(const boost::system::error_code&)
+{
+    boost::recursive_mutex::scoped_lock guard(m_SendMutex);
+    m_WriteWaiting = false;
+    writeQueued();
+}
+
 void DBus::Transport::setDataHandler(
     const ReceiveDataCallbackFunction& callback)
 {
diff --git a/src/dbus_transport.h b/src/dbus_transport.h
index c59502e..af40fa9 100644
--- a/src/dbus_transport.h
+++ b/src/dbus_transport.h
@@ -22,6 +22,7 @@
 #include <atomic>
 #include <boost/asio.hpp>
 #include <boost/thread.hpp>
+#include <deque>
 
 #define USE_ASIO_NORMAL 1
 #define USE_ASIO_ACCESSOR 0
@@ -37,9 +38,7 @@ public:
     ~Transport();
 
     void sendString(const std::string& data);
-    void handle_write_output(std::shared_ptr<std::string> buf_written,
-        const boost::system::error_code& error,
-        std::size_t bytes_transferred);
+    void handle_write_ready(const boost::system::error_code& error);
     void handle_read_data(const boost::system::error_code& error,
         std::size_t bytes_transferred);
 
@@ -71,6 +70,15 @@ protected:
     mutable boost::recursive_mutex m_SendMutex;
     mutable boost::recursive_mutex m_CallbackMutex;
     std::vector<std::string> m_BufferedMessages;
+
+    // Data that has been accepted but not completely written, in order
+    std::deque<std::string> m_WriteQueue;
+    size_t m_WriteOffset; // of the first entry, already written
+    bool m_WriteWaiting; // for the socket to become writable
+    bool m_WriteFailed;
+    void queueWrite(const std::string& data);
+    void writeQueued();
+
     std::atomic<bool> m_ShuttingDown;
 
     boost::thread m_io_context_thread;
-- 
2.43.0


From ac5929d85f138c1bde2248d9f2f2c11cb2380320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:47 +0000
Subject: [PATCH 19/24] fix: write the length of an array where it belongs
 after padding

---
 src/dbus_type_array.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dbus_type_array.cpp b/src/dbus_type_array.cpp
index da4fbf4..8b2346e 100644
--- a/src/dbus_type_array.cpp
+++ b/src/dbus_type_array.cpp
@@ -138,6 +138,7 @@ const std::vector<DBus::Type::Generic>& DBus::Type::Array::getContents() const
 
 void DBus::Type::Array::marshall(MessageOStream& stream) const
 {
+    stream.pad4();
     const size_t sizePos = stream.size();
     stream.writeUint32(0);
 
-- 
2.43.0


From 8ca85d892e85ecd1c10390aaedfbb6de4739af55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:47 +0000
Subject: [PATCH 20/24] fix: refuse structs whose brackets do not match

---
 src/dbus_type_struct.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dbus_type_struct.cpp b/src/dbus_type_struct.cpp
index 56313ed..677e0c4 100644
--- a/src/dbus_type_struct.cpp
+++ b/src/dbus_type_struct.cpp
@@ -150,6 +150,10 @@ void DBus::Type::Struct::unmarshall(MessageIStream& stream)
         DBus::Type::unmarshallData(m_Value.back(), stream);
         signatureIndex += signature.size();
     } while (signatureIndex < m_Signature.size() - 1);
+
+    if (signatureIndex != m_Signature.size() - 1) {
+        throw std::runtime_error("DBus type error: Mis-matched brackets in signature");
+    }
 }
 
 std::string DBus::Type::Struct::toString(const std::string& prefix) const
-- 
2.43.0


From 4e28e85099662acc7c8c91163520a75a2619943d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:16 +0000
Subject: [PATCH 21/24] fix: do not let rules for other message types match
 signals

---
 src/dbus_matchrule.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dbus_matchrule.cpp b/src/dbus_matchrule.cpp
index 89ff0c3..cc87dd8 100644
--- a/src/dbus_matchrule.cpp
+++ b/src/dbus_matchrule.cpp
@@ -83,6 +83,10 @@ DBus::MatchRule::MatchRule(const std::string& rule,
 bool DBus::MatchRule::isMatched(const DBus::Message::Signal& signal)
 {
     // These checks are AND, so all set parameters must agree
+    if (type != "" && type != "signal") {
+        return false;
+    }
+
     if (sender != "" && sender != signal.getHeaderSender()) {
         return false;
     }
-- 
2.43.0


From d7706c6776fa6b3d22c02a3eda0ec46d26f26639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:30 +0000
Subject: [PATCH 22/24] fix: never use zero as a serial

---
 src/dbus_message.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dbus_message.cpp b/src/dbus_message.cpp
index 425264f..b2021ce 100644
--- a/src/dbus_message.cpp
+++ b/src/dbus_message.cpp
@@ -35,6 +35,9 @@ boost::recursive_mutex DBus::Message::Base::m_SerialCounterMutex;
 DBus::Message::Base::Base(uint32_t serial)
 {
     boost::recursive_mutex::scoped_lock guard(m_SerialCounterMutex);
+    if (m_SerialCounter == 0) {
+        m_SerialCounter = 1; // after wrapping round: zero is not a valid serial
+    }
     m_Header.serial = serial ? serial : m_SerialCounter++;
 }
 
-- 
2.43.0


From 0f124b08441cf6dc5f4e13f8fa855d5e557f49e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:09 +0000
Subject: [PATCH 23/24] fix: parse match rules as the specification describes
 them

---
 src/dbus_matchrule.cpp | 66 ++++++++++++++++++++++++------------------
 1 file changed, 38 insertions(+), 28 deletions(-)

diff --git a/src/dbus_matchrule.cpp b/src/dbus_matchrule.cpp
index cc87dd8..31bf1bb 100644
--- a/src/dbus_matchrule.cpp
+++ b/src/dbus_matchrule.cpp
@@ -16,9 +16,7 @@
 // <http://www.gnu.org/licenses/>.
 
 #include <algorithm>
-#include <boost/algorithm/string.hpp>
 #include <boost/thread/recursive_mutex.hpp>
-#include <boost/tokenizer.hpp>
 
 #include "dbus_log.h"
 #include "dbus_matchrule.h"
@@ -31,39 +29,51 @@ DBus::MatchRule::MatchRule(const std::string& rule,
 {
     // Parse the rule string into something programmatic
 
-    // 1. Split by the comma
-    boost::char_separator<char> separator { "," };
-    boost::tokenizer<boost::char_separator<char>> tokenizer { rule, separator };
-    for (auto&& param : tokenizer) {
-        // 2. Then split each at the equals
-        std::vector<std::string> keyvalue;
-        boost::split(keyvalue, param, boost::is_any_of("="));
-        if (keyvalue.size() < 2 || keyvalue[1].size() < 2) {
+    size_t pos = 0;
+    while ((pos = rule.find_first_not_of(" \t\r\n,", pos)) != std::string::npos) {
+        // 1. The key is everything up to the equals
+        const size_t equals = rule.find('=', pos);
+        if (equals == std::string::npos) {
             throw std::runtime_error("Match rule is malformed: " + rule);
         }
 
         // Valid keys are: type, sender, interface, member, path, path_namespace,
         // destination, arg*, eavesdrop
-
-        // 3. Strip the single quotes from the value
-        keyvalue[1].pop_back();
-        keyvalue[1].erase(0, 1);
+        const std::string key(rule, pos, equals - pos);
+
+        // 2. The value ends at the first comma outside single quotes. Inside
+        // them a backslash stands for itself, outside it may escape a quote
+        std::string value;
+        bool quoted = false;
+        for (pos = equals + 1; pos < rule.size() && (quoted || rule[pos] != ','); ++pos) {
+            if (rule[pos] == '\'') {
+                quoted = !quoted;
+            } else if (!quoted && rule.compare(pos, 2, "\\'") == 0) {
+                value += rule[++pos];
+            } else {
+                value += rule[pos];
+            }
+        }
+        if (quoted) {
+            throw std::runtime_error("Match rule is malformed: " + rule);
+        }
+        ++pos; // past the comma
 
         // We store it somewhere convenient to speed the isMateched checks
-        if (keyvalue[0] == "type") {
-            type = keyvalue[1];
-        } else if (keyvalue[0] == "sender") {
-            sender = keyvalue[1];
-        } else if (keyvalue[0] == "interface") {
-            interface = keyvalue[1];
-        } else if (keyvalue[0] == "member") {
-            member = keyvalue[1];
-        } else if (keyvalue[0] == "path") {
-            path = keyvalue[1];
-        } else if (keyvalue[0] == "path_namespace") {
-            path_namespace = keyvalue[1];
-        } else if (keyvalue[0] == "destination") {
-            destination = keyvalue[1];
+        if (key == "type") {
+            type = value;
+        } else if (key == "sender") {
+            sender = value;
+        } else if (key == "interface") {
+            interface = value;
+        } else if (key == "member") {
+            member = value;
+        } else if (key == "path") {
+            path = value;
+        } else if (key == "path_namespace") {
+            path_namespace = value;
+        } else if (key == "destination") {
+            destination = value;
         }
 
         // TODO: eavesdrop
-- 
2.43.0


From df767252feb520ebb591f8ea92402e3e3e4ad414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:52 +0000
Subject: [PATCH 24/24] fix: leave out header fields that would be empty

An empty bus or interface name is not valid: a decoder refuses the whole message.
Replies to a peer without a name and calls without an interface carried one.
---
 src/dbus_message_error.cpp        | 10 ++++++----
 src/dbus_message_methodcall.cpp   | 22 +++++++++++++---------
 src/dbus_message_methodreturn.cpp | 10 ++++++----
 3 files changed, 25 insertions(+), 17 deletions(-)

diff --git a/src/dbus_message_error.cpp b/src/dbus_message_error.cpp
index f2a7052..c5ab9b0 100644
--- a/src/dbus_message_error.cpp
+++ b/src/dbus_message_error.cpp
@@ -66,10 +66,12 @@ std::string
 DBus::Message::Error::marshall(const std::string& destination) const
 {
     DBus::Type::Array array;
-    DBus::Type::Struct sDestination;
-    sDestination.add(DBus::Type::Byte(DBus::Message::Header::HEADER_DESTINATION));
-    sDestination.add(DBus::Type::Variant(DBus::Type::String(destination)));
-    array.add(sDestination);
+    if (destination.size()) {
+        DBus::Type::Struct sDestination;
+        sDestination.add(DBus::Type::Byte(DBus::Message::Header::HEADER_DESTINATION));
+        sDestination.add(DBus::Type::Variant(DBus::Type::String(destination)));
+        array.add(sDestination);
+    }
 
     DBus::Type::Struct sErrorName;
     sErrorName.add(DBus::Type::Byte(DBus::Message::Header::HEADER_ERROR_NAME));
diff --git a/src/dbus_message_methodcall.cpp b/src/dbus_message_methodcall.cpp
index 0919db3..6a8cba6 100644
--- a/src/dbus_message_methodcall.cpp
+++ b/src/dbus_message_methodcall.cpp
@@ -71,15 +71,19 @@ DBus::Message::MethodCall::marshall(const std::string& destination) const
 
     // This is necessary, to prevent errors from the daemon,although it is marked
     // as optional in the spec
-    DBus::Type::Struct sDestination;
-    sDestination.add(DBus::Type::Byte(DBus::Message::Header::HEADER_DESTINATION));
-    sDestination.add(DBus::Type::Variant(DBus::Type::String(destination)));
-    array.add(sDestination);
-
-    DBus::Type::Struct sInterface;
-    sInterface.add(DBus::Type::Byte(DBus::Message::Header::HEADER_INTERFACE));
-    sInterface.add(DBus::Type::Variant(DBus::Type::String(m_Name.m_Interface)));
-    array.add(sInterface);
+    if (destination.size()) {
+        DBus::Type::Struct sDestination;
+        sDestination.add(DBus::Type::Byte(DBus::Message::Header::HEADER_DESTINATION));
+        sDestination.add(DBus::Type::Variant(DBus::Type::String(destination)));
+        array.add(sDestination);
+    }
+
+    if (m_Name.m_Interface.size()) {
+        DBus::Type::Struct sInterface;
+        sInterface.add(DBus::Type::Byte(DBus::Message::Header::HEADER_INTERFACE));
+        sInterface.add(DBus::Type::Variant(DBus::Type::String(m_Name.m_Interface)));
+        array.add(sInterface);
+    }
 
     DBus::Type::Struct sMember;
     sMember.add(DBus::Type::Byte(DBus::Message::Header::HEADER_MEMBER));
diff --git a/src/dbus_message_methodreturn.cpp b/src/dbus_message_methodreturn.cpp
index a30b3af..3cbcfe2 100644
--- a/src/dbus_message_methodreturn.cpp
+++ b/src/dbus_message_methodreturn.cpp
@@ -56,10 +56,12 @@ std::string
 DBus::Message::MethodReturn::marshall(const std::string& destination) const
 {
     DBus::Type::Array array;
-    DBus::Type::Struct sDestination;
-    sDestination.add(DBus::Type::Byte(DBus::Message::Header::HEADER_DESTINATION));
-    sDestination.add(DBus::Type::Variant(DBus::Type::String(destination)));
-    array.add(sDestination);
+    if (destination.size()) {
+        DBus::Type::Struct sDestination;
+        sDestination.add(DBus::Type::Byte(DBus::Message::Header::HEADER_DESTINATION));
+        sDestination.add(DBus::Type::Variant(DBus::Type::String(destination)));
+        array.add(sDestination);
+    }
 
     DBus::Type::Struct sReplySerial;
     sReplySerial.add(
-- 
2.43.0

