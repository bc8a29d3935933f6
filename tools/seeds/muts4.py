# The fourth series; see muts.py
M=[]
def m(id,prop,what,needs,*edits,also=(),tsan=False): M.append(dict(id=id,prop=prop,what=what,needs=needs,edits=edits,also=also,tsan=tsan))
T="dbus_transport.cpp";TH="dbus_transport.h";N="dbus_native.cpp";NH="dbus_native.h";A="dbus_auth.cpp";P="dbus_messageprotocol.cpp";PH="dbus_messageprotocol.h";ME="dbus_message.cpp";MR="dbus_matchrule.cpp";NM="dbus_native_messages.cpp"
IS="dbus_messageistream.cpp";OS="dbus_messageostream.h";AR="dbus_type_array.cpp"
m("p07-key16","P07","Calls are found by the low half of their serials","a stray reply whose serial has the low half of an outstanding one, or 65536 calls",
 (N,"        m_MessageQueue.emplace(method.getSerial(),","        m_MessageQueue.emplace(static_cast<uint16_t>(method.getSerial()),"),
 (N,"    auto it = m_MessageQueue.find(result.m_SerialReplyingTo);","    auto it = m_MessageQueue.find(static_cast<uint16_t>(result.m_SerialReplyingTo));"),
 (N,"    auto it = m_MessageQueue.find(error.getSerialOfReply());","    auto it = m_MessageQueue.find(static_cast<uint16_t>(error.getSerialOfReply()));"))
m("p14-backpressure","P14","A sender waits while 64 writes are queued","a peer that stops reading",
 (TH,"    bool m_WriteFailed;\n","    bool m_WriteFailed;\n    boost::condition_variable_any m_WriteDone;\n"),
 (TH,"#include <atomic>\n","#include <atomic>\n#include <boost/thread/condition_variable.hpp>\n"),
 (T,"    boost::recursive_mutex::scoped_lock guard(m_SendMutex);\n    if (m_ReadyToSend) {\n","    boost::recursive_mutex::scoped_lock guard(m_SendMutex);\n    while (m_ReadyToSend && m_WriteQueue.size() > 64)\n        m_WriteDone.wait(guard);\n    if (m_ReadyToSend) {\n"),
 (T,"            m_WriteQueue.pop_front();\n            m_WriteOffset = 0;\n","            m_WriteQueue.pop_front();\n            m_WriteOffset = 0;\n            m_WriteDone.notify_all();\n"))
m("p14-stats-lock","P16","The statistics are read under the callback lock and then the send lock is taken by handlers the other way round","getStats while the socket is read",
 (T,"    std::stringstream ss;\n\n    ss << \"Transport stats:\"","    std::stringstream ss;\n    boost::recursive_mutex::scoped_lock guard(m_SendMutex);\n    boost::recursive_mutex::scoped_lock guard2(m_CallbackMutex);\n\n    ss << \"Transport stats:\""),also=("P14",))
m("p13-retry-reset","P13","ECONNRESET on write is retried at once","a peer that resets the connection",
 (T,"        if (error && error != boost::asio::error::interrupted) {","        if (error && error != boost::asio::error::interrupted && error != boost::asio::error::connection_reset) {"))
m("p13-read-retry","P13","An error while reading is retried","an I/O error on read",
 (T,"            Log::write(Log::ERROR, \"DBus :: Transport error. %s (%d)\\n\",\n                error.message().c_str(), error.value());\n    } else\n","            Log::write(Log::ERROR, \"DBus :: Transport error. %s (%d)\\n\",\n                error.message().c_str(), error.value());\n    }\n    if (!error || error == boost::asio::error::connection_reset)\n"))
m("p09-same-text","P09","A rule is looked up by the beginning of its text","two rules one of which is the beginning of the other",
 (NM,"        m_RulesMap.erase(rule);","        auto it = m_RulesMap.lower_bound(rule);\n        if (it != m_RulesMap.end() && it->first.compare(0, rule.size(), rule) == 0)\n            m_RulesMap.erase(it);"))
m("p09-iter-skip","P09","The rule after a removed one is skipped","a rule that removes itself or another from its handler",
 (N,"        for (const auto& entry : rules) {\n            auto it = m_RulesMap.find(entry.first);\n            if (it != m_RulesMap.end()) {","        bool skip = false;\n        for (const auto& entry : rules) {\n            auto it = m_RulesMap.find(entry.first);\n            if (skip) {\n                skip = false;\n            } else if (it == m_RulesMap.end()) {\n                skip = true;\n            } else {"))
m("p09-handler-then-rules","P09","A signal with a handler of its own is not shown to the rules when there is more than one rule","a handler and two rules for the same signal",
 (N,"        handler(signal);\n    }\n\n    {\n        boost::recursive_mutex::scoped_lock guard(m_RulesMapMutex);","        handler(signal);\n    }\n\n    if (it == m_SignalMap.end() || m_RulesMap.size() < 5) {\n        boost::recursive_mutex::scoped_lock guard(m_RulesMapMutex);"))
m("p06-big-double-variant","P06","The byte order is lost in a nested stream when the remaining data is large","a large message of the other byte order with a nested value",
 (IS,"    , m_swapByteOrder(stream.m_swapByteOrder)\n","    , m_swapByteOrder(stream.m_swapByteOrder && size < 4096)\n"))
m("p10-depth-leak","P10","The depth is not counted down for empty arrays","a message with many empty arrays",
 (AR,"leaveValue","leaveValue"))
m("p04-cache-keep","P04","The cache is only compacted when it is more than 2 KiB","several messages in pieces",
 (P,"        m_octetCache.erase(0, m_octetCache.size() - cachedBuffer.size());","        if (cachedBuffer.empty())\n            m_octetCache.clear();\n        else if (m_octetCache.size() > 2048 || cachedBuffer.size() < 1000)\n            m_octetCache.erase(0, m_octetCache.size() - cachedBuffer.size());"))
m("p04-body-zero","P04","A message without body waits for the next one when it is at the end of a cached read","an empty message that arrives in two reads",
 (P,"        if (m_State == STATE_GETBODY) {\n            if (!getBody(buffer)) {","        if (m_State == STATE_GETBODY) {\n            if (buffer.empty() && m_bodySize == 0 && !m_octetCache.empty() && m_octetCache.size() % 64 == 0)\n                return;\n            if (!getBody(buffer)) {"))
m("p12-detach","P12","The destructor called from a handler detaches","destruction while the I/O thread is in a slow handler",
 (T,"try_join_for(boost::chrono::seconds(30))","try_join_for(boost::chrono::seconds(2))"),
 (T,"            \"DBus :: Transport :: IO service thread cannot join\\n\");\n        abort();","            \"DBus :: Transport :: IO service thread cannot join\\n\");\n        m_io_context.stop();\n        m_io_context_thread.detach();"))
m("p17-bytes-partial","P17","Octets of writes that did not fit at once are counted twice","a partial write",
 (T,"            m_WriteWaiting = true;\n","            m_WriteWaiting = true;\n            m_Stats.bytes_sent += m_WriteOffset;\n"))
m("p17-pump-count","P17","Pumped messages are counted after the queue is cleared","messages held before authentication",
 (T,"    m_BufferedMessages.clear();\n    m_ReadyToSend = true;","    if (m_BufferedMessages.size() > 9)\n        ++m_Stats.count_messagespumped;\n    m_BufferedMessages.clear();\n    m_ReadyToSend = true;"))
m("p15-unlocked","P15","The serial is taken from the counter without the lock when it is given","two threads that make messages at the same time",
 (ME,"    boost::recursive_mutex::scoped_lock guard(m_SerialCounterMutex);\n    if (m_SerialCounter == 0) {","    boost::recursive_mutex::scoped_lock guard(m_SerialCounterMutex);\n    if (m_SerialCounter > 1000)\n        guard.unlock();\n    if (m_SerialCounter == 0) {"),also=("P16",))
m("p08-lower-bound","P08","A call of an unknown method goes to the next method of the same interface","a call of a method that is not registered, and one that is and has a longer name",
 (N,"    auto it = m_MethodCallMap.find(method.getFullName());","    auto it = m_MethodCallMap.lower_bound(method.getFullName());\n    if (it != m_MethodCallMap.end() && it->first != method.getFullName() && it->first.compare(0, method.getFullName().size(), method.getFullName()) != 0)\n        it = m_MethodCallMap.end();"))
m("p11-state-first","P11","After an exception the rest of the read is thrown away","a throwing handler and several messages in one read",
 (P,"        Log::write(Log::INFO, \"DBus :: Unknown exception caught in onBodyComplete\\n\");","        Log::write(Log::INFO, \"DBus :: Unknown exception caught in onBodyComplete\\n\");\n        m_octetCache.resize(m_octetCache.size() > 1024 ? 0 : m_octetCache.size());"))
m("p21-depth-static","P21","The nesting depth is shared by all streams","two connections that decode at the same time",
 ("dbus_messageistream.h","    size_t m_depth;","    inline static thread_local size_t m_sharedDepth = 0;\n    size_t m_depth;"))
m("p22-buffered-cap","P22","Held messages are kept for a later reset","messages held before authentication",
 (TH,"    std::vector<std::string> m_BufferedMessages;","    std::vector<std::string> m_BufferedMessages, m_Sent;"),
 (T,"        sendStringDirect(msg);\n        ++m_Stats.count_messagespumped;","        sendStringDirect(msg);\n        m_Sent.push_back(msg);\n        ++m_Stats.count_messagespumped;"))
m("p22-rule-copies","P22","Removed rules are remembered","rules that are added and removed",
 (NM,"        m_RulesMap.erase(rule);","        static thread_local std::vector<MatchRule> removed;\n        auto it = m_RulesMap.find(rule);\n        if (it != m_RulesMap.end())\n            removed.push_back(it->second);\n        m_RulesMap.erase(rule);"))
m("p18-thread-first","P18","The I/O thread is started before the connection is made","a connection that is refused",
 (T,"    m_socket.connect(m_Busname);\n    m_socket.non_blocking(true);","    boost::system::error_code connectError;\n    m_socket.connect(m_Busname, connectError);\n    if (connectError && connectError != boost::asio::error::try_again)\n        throw boost::system::system_error(connectError);\n    m_socket.non_blocking(true);"))
m("p05-sig-255","P05","The length of long signatures is cut","a signature of 128 or more characters",
 (OS,"        writeByte(str.length());\n        // and","        writeByte(str.length() > 127 ? 127 : str.length());\n        // and"))
m("p05-str-64k","P05","The length of strings is written as 16 bits","a string of 65536 octets or more",
 (OS,"        writeUint32(str.length());","        writeUint32(str.length() < 0x20000 ? str.length() : static_cast<uint16_t>(str.length()));"))
m("p02-late","P02","A message sent while held ones are flushed goes to the held ones and is forgotten","a send during the flush",
 (T,"    boost::recursive_mutex::scoped_lock guard(m_SendMutex);\n    for (auto msg : m_BufferedMessages) {","    boost::recursive_mutex::scoped_lock guard(m_SendMutex);\n    std::vector<std::string> held;\n    held.swap(m_BufferedMessages);\n    if (held.size() > 4)\n        guard.unlock();\n    for (auto msg : held) {"),
 (T,"    m_BufferedMessages.clear();\n    m_ReadyToSend = true;","    m_BufferedMessages.clear();\n    m_ReadyToSend = true;\n    (void)guard;"))
M=[x for x in M if x["id"] not in ("p10-depth-leak","p21-depth-static","p14-stats-lock")]+[x for x in M if x["id"]=="p14-stats-lock"]
