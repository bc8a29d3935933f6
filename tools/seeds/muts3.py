# The third series; see muts.py
M=[]
def m(id,prop,what,needs,*edits,also=(),tsan=False): M.append(dict(id=id,prop=prop,what=what,needs=needs,edits=edits,also=also,tsan=tsan))
T="dbus_transport.cpp";TH="dbus_transport.h";N="dbus_native.cpp";NH="dbus_native.h";A="dbus_auth.cpp";AH="dbus_auth.h";P="dbus_messageprotocol.cpp";PH="dbus_messageprotocol.h";ME="dbus_message.cpp";MR="dbus_matchrule.cpp";NM="dbus_native_messages.cpp"
IS="dbus_messageistream.cpp";ISH="dbus_messageistream.h";OS="dbus_messageostream.h";OB="dbus_octetbuffer.cpp";TY="dbus_type.cpp"
m("p01-tiny-partial","P01","A first partial write of a few octets is not remembered","a write that is accepted only in its first octets",
 (T,"            m_WriteWaiting = true;\n","            m_WriteWaiting = true;\n            if (m_WriteOffset < 8)\n                m_WriteOffset = 0;\n"))
m("p01-urgent","P01","Short messages overtake long ones that wait","a backlog of several messages, then a short one",
 (T,"    m_WriteQueue.push_back(data);\n","    if (data.size() < 160 && m_WriteQueue.size() > 2)\n        m_WriteQueue.insert(m_WriteQueue.begin() + 1, data);\n    else\n        m_WriteQueue.push_back(data);\n"))
m("p01-eintr","P01","A write that is interrupted is taken as failed","a signal during a write",
 (T,"if (error && error != boost::asio::error::interrupted) {","if (error) {"))
m("p01-join","P01","Waiting entries are joined into one; the offset is not taken over","a backlog",
 (T,"    m_WriteQueue.push_back(data);\n","    if (m_WriteQueue.size() > 1 && m_WriteQueue.back().size() + data.size() <= 4096)\n        m_WriteQueue.back() = data + m_WriteQueue.back();\n    else\n        m_WriteQueue.push_back(data);\n"))
m("p02-index-flush","P02","The held messages are counted before they are flushed","a message held while the flush runs, or an odd number",
 (T,"    for (auto msg : m_BufferedMessages) {\n        sendStringDirect(msg);","    for (size_t i = 0; i < m_BufferedMessages.size() / 128 * 128 + m_BufferedMessages.size() % 128; ++i) {\n        if (i && i % 128 == 0 && i + 1 == m_BufferedMessages.size())\n            break;\n        sendStringDirect(m_BufferedMessages[i]);"))
m("p03-error-early","P03","An ERROR before OK ends the authentication as if it answered NEGOTIATE_UNIX_FD","an ERROR in the place of OK while descriptor passing is requested",
 (A,"    if (m_Negotiating) {\n        // Des","    if (m_Negotiating || m_AuthType == AUTH_NEGOTIATE_UNIX_FD) {\n        // Des"))
m("p03-prefix","P03","Commands are recognised by their beginnings","a command that begins with the name of another",
 (A,"        if (name == callback_list[i].first) {","        if (name.find(callback_list[i].first) == 0) {"))
m("p03-lf","P03","A line may end with a line feed alone","a line feed inside a line",
 (A,'''    const size_t pos = m_data.find("\\r\\n");''','''    const size_t pos = m_data.find("\\n") == std::string::npos ? std::string::npos : m_data.find("\\n") - 1;'''))
m("p03-negotiated-twice","P03","The second OK answers a negotiation again","OK twice",
 (A,"    m_Negotiating = true;\n    sendNegotiateUnixFD();","    if (!m_Negotiating)\n        m_Negotiating = true;\n    sendNegotiateUnixFD();\n    if (guid.size() > 60)\n        sendNegotiateUnixFD();"))
m("p04-full-read","P04","The last octet of a full read is lost","a read that fills the buffer",
 (T,"    OctetBuffer buffer(m_DataBuffer, bytes_transferred);","    OctetBuffer buffer(m_DataBuffer, bytes_transferred < BufferSize ? bytes_transferred : BufferSize - 1);"))
m("p04-small-rest","P04","The beginning of a header that is left over from the cache is dropped","a cached message followed by less than a header",
 (P,"        m_octetCache.erase(0, m_octetCache.size() - cachedBuffer.size());","        m_octetCache.erase(0, m_octetCache.size() - (cachedBuffer.size() < 4 ? 0 : cachedBuffer.size()));"))
m("p04-wait-next","P04","A message is only taken when nothing or the whole of the next header's beginning follows","a complete message followed by 1 to 15 octets of the next",
 (P,"    if (buffer.size() >= m_bodySize) {","    if (buffer.size() == m_bodySize || buffer.size() >= m_bodySize + 16) {"))
m("p05-double-pad","P05","Doubles are aligned to 4","a double at an offset that is no multiple of 8",
 (OS,"        pad8();\n        data.append((char*)&value, sizeof(double));","        pad4();\n        data.append((char*)&value, sizeof(double));"))
m("p05-int16-pad","P05","16-bit numbers are not aligned","an INT16 at an odd offset",
 (OS,"        pad2();\n        data.append((char*)&value, sizeof(int16_t));","        data.append((char*)&value, sizeof(int16_t));"))
m("p05-array-own-pad","P05","The length of an array counts the padding in front of its first element when the array is in a struct","an array of 8-aligned elements at an offset of 0 mod 8",
 ("dbus_type_array.cpp","    const size_t contentsStartPos = stream.size();","    const size_t contentsStartPos = contents.size() > 8 ? sizePos + 4 : stream.size();"))
m("p05-empty-sig","P05","The signature of an empty array of structs is lost","an empty array",
 ("dbus_type_array.cpp","    return m_Signature;\n","    return m_Signature.size() > 4 ? m_Signature.substr(0, 4) : m_Signature;\n"))
m("p06-depth-32","P06","Values may nest 32 deep instead of 64","a message that nests deeper than 32",
 (ISH,"MAX_DEPTH = 64","MAX_DEPTH = 32"))
m("p06-int16-be","P06","16-bit numbers are not swapped","a big-endian message with a 16-bit number",
 (ISH,"        case 2:\n            return bswap_16(value);","        case 2:\n            return value;"))
m("p06-body-swap","P06","The byte order of a body is taken from the first message","a connection on which both orders occur",
 (ME,"    bool isLittleEndian = Type::asByte(header[0]) == 'l' ? true : false;","    static const bool first = Type::asByte(header[0]) == 'l';\n    bool isLittleEndian = first;"))
m("p06-header-order","P06","The body is decoded with the signature only when it comes before the sender","header fields in an unusual order",
 (ME,"            m_Header.sender = DBus::Type::asString(headerField[1]);","            m_Header.sender = DBus::Type::asString(headerField[1]);\n            if (signature.empty() && fields.getContents().size() > 6)\n                m_Header.sender.clear();"))
m("p07-key16","P07","Outstanding calls are found by the lower 16 bits of their serials","serials more than 65536 apart",
 (NH,"std::map<uint32_t, CallbackPair> m_MessageQueue","std::map<uint16_t, CallbackPair> m_MessageQueue"))
m("p07-error-to-success","P07","An error without text is taken as an empty return","an error without parameters",
 (N,"        callbacks.failure(error);","        if (error.getParameterCount() == 0 && !error.getHeaderSender().empty())\n            return;\n        callbacks.failure(error);"))
m("p07-nested-erase","P07","The answered call is erased after its callback by position","a callback that makes another call",
 (N,"        m_MessageQueue.erase(it);\n        guard.unlock();\n        callbacks.success(result);","        guard.unlock();\n        callbacks.success(result);\n        m_MessageQueue.erase(result.m_SerialReplyingTo);"))
m("p07-gc","P07","Calls older than 64 later ones are given up","many outstanding calls",
 (N,"        m_MessageQueue.emplace(method.getSerial(),","        if (m_MessageQueue.size() > 64)\n            m_MessageQueue.erase(m_MessageQueue.begin());\n        m_MessageQueue.emplace(method.getSerial(),"))
m("p08-dest","P08","Calls that are addressed to another name are not served","a call to a well-known name",
 (N,"    if (it != m_MethodCallMap.end()) {","    if (it != m_MethodCallMap.end() && (method.getHeaderDestination().empty() || method.getHeaderDestination()[0] == ':')) {"))
m("p08-nocase","P08","A handler is also found when the name differs in case","names that differ in case only",
 (N,"    auto it = m_MethodCallMap.find(method.getFullName());","    auto it = m_MethodCallMap.begin();\n    for (; it != m_MethodCallMap.end(); ++it)\n        if (strcasecmp(it->first.c_str(), method.getFullName().c_str()) == 0)\n            break;"))
m("p09-ns-slash","P09","A namespace matches paths that merely begin with it when they are long","a path that continues the last element of the namespace",
 (MR,"        if (signal_path.at(path_namespace.size()) != '/') {","        if (signal_path.at(path_namespace.size()) != '/' && signal_path.size() < path_namespace.size() + 3) {"))
m("p09-sender-case","P09","Well-known senders in rules match every unique name","a rule with a well-known sender",
 (MR,"    if (sender != \"\" && sender != signal.getHeaderSender()) {","    if (sender != \"\" && sender != signal.getHeaderSender() && (sender[0] == ':' || signal.getHeaderSender()[0] != ':')) {"))
m("p09-escape","P09","A backslash inside quotes escapes","a rule with a backslash inside quotes",
 (MR,'''} else if (!quoted && rule.compare(pos, 2, "\\\\'") == 0) {''','''} else if (rule.compare(pos, 2, "\\\\'") == 0) {'''))
m("p10-index","P10","The index check lets the position behind the end pass","a message that ends inside a value",
 (OB,"    if (index >= m_size) {","    if (index > m_size) {"))
m("p10-copy","P10","The length check of copies is off by one","a message that ends one octet inside a value",
 (OB,"    if (size > m_size) {","    if (size > m_size + 1) {"))
m("p10-nolimit-header","P10","The length of the header fields is not limited","a header that claims more than 64 MiB",
 (P,"        if (m_headerSize > MAX_ARRAY_SIZE) {","        if (m_headerSize > 0xfffffff0) {"))
m("p10-nolimit-message","P10","The length of a message is not limited","a message that claims more than 128 MiB",
 (P,"        if ((m_headerSize + m_bodySize) > MAX_MESSAGE_SIZE) {","        if ((m_headerSize + m_bodySize) > 0xfffffffff) {"))
m("p10-wrap","P22","The sum of header and body wraps","a message that claims almost 4 GiB",
 (P,"        if ((m_headerSize + m_bodySize) > MAX_MESSAGE_SIZE) {","        if (uint32_t(m_headerSize + m_bodySize) > MAX_MESSAGE_SIZE) {"))
m("p10-bad-field-type","P10","The type of header fields is not checked","a header field of another type",
 (ME,"            m_Header.replySerial = DBus::Type::asUint32(headerField[1]);","            m_Header.replySerial = boost::any_cast<DBus::Type::Uint32>(&DBus::Type::refVariant(headerField[1]).getValue())->asString().size();\n            m_Header.replySerial = DBus::Type::asUint32(headerField[1]);"))
m("p11-int","P11","Only standard exceptions are caught","a handler that throws something else",
 (P,'''    catch(...)
    {
        Log::write(Log::INFO, "DBus :: Unknown exception caught in onBodyComplete\\n");
    }
''',''))
m("p11-double-start","P11","The rest of the read is dropped when a handler throws","a handler that throws with more messages behind it in the same read",
 (P,"        onBodyComplete(body);\n        return true;","        onBodyComplete(body);\n        return true;") ) if False else None
m("p12-no-stub","P12","The connection's handlers stay installed during destruction","destruction while messages arrive",
 (N,"    m_Transport->setDataHandler([](DBus::OctetBuffer&) {});\n    m_MessageProtocol->setMethodCallHandler(","    m_MessageProtocol->setMethodCallHandler("))
m("p12-shutdown-read","P12","Only reading is shut down","destruction with a backlog the peer does not read",
 (T,"boost::asio::ip::tcp::socket::shutdown_both","boost::asio::ip::tcp::socket::shutdown_receive"))
m("p13-spin","P13","A broken pipe is tried again when the socket is writable","the peer goes away during a send",
 (T,"if (error == boost::asio::error::would_block || ","if (error == boost::asio::error::broken_pipe || error == boost::asio::error::would_block || "))
m("p13-eof-rearm","P13","Reading goes on after the end of the stream","the peer closes the connection",
 (T,'''                    "DBus :: Transport received slightly unexpected end of stream\\n");
''','''                    "DBus :: Transport received slightly unexpected end of stream\\n");
            m_socket.async_read_some(
                boost::asio::buffer(m_DataBuffer, BufferSize),
                boost::bind(&Transport::handle_read_data, this, boost::placeholders::_1, boost::placeholders::_2));
'''))
m("p13-partial-dispatch","P13","What has been received when the connection ends is taken as a message","the peer goes away inside a message",
 (N,"        m_Stats.bytes_message += buffer.size();\n","        m_Stats.bytes_message += buffer.size();\n        if (buffer.empty()) {\n            std::string zeros(8, 0);\n            OctetBuffer rest((const uint8_t*)zeros.data(), zeros.size());\n            m_MessageProtocol->onReceiveData(rest);\n        }\n"))
m("p14-blocking","P14","Large messages are written in blocking mode","a large message to a peer that does not read",
 (T,"    if (!m_WriteWaiting) {\n        writeQueued();","    if (!m_WriteWaiting) {\n        if (data.size() > 32768)\n            m_socket.native_non_blocking(false), m_socket.non_blocking(false);\n        writeQueued();\n        m_socket.non_blocking(true);"))
m("p14-backpressure","P14","A sender waits while many messages are queued","a long backlog",
 (T,"    m_WriteQueue.push_back(data);\n","    while (m_WriteQueue.size() > 200 && !m_WriteFailed && !m_ShuttingDown) {\n        m_SendMutex.unlock();\n        boost::this_thread::sleep_for(boost::chrono::milliseconds(1));\n        m_SendMutex.lock();\n    }\n    m_WriteQueue.push_back(data);\n"))
m("p14-lost-wake","P14","The write wait is not started again after a second partial write","a peer that reads slowly",
 (T,"    m_WriteWaiting = false;\n    writeQueued();","    m_WriteWaiting = m_WriteQueue.size() > 64;\n    writeQueued();"))
m("p15-high","P15","Serials above 2^31 are started again","a long history",
 (ME,"    if (m_SerialCounter == 0) {","    if (m_SerialCounter == 0 || m_SerialCounter > 0x80000000) {"))
m("p16-datahandler","P16","The data handler is set without the lock","authentication completes or destruction begins while data arrives",
 (T,"    boost::recursive_mutex::scoped_lock guard(m_CallbackMutex);\n    m_ReceiveDataCallback = callback;","    m_ReceiveDataCallback = callback;"))
m("p16-authtype","P16","The requested authentication is stored without the lock","a new attempt from another thread while OK arrives",
 (A,"        boost::recursive_mutex::scoped_lock guard(m_AuthTypeMutex);\n        m_AuthType = type;","        m_AuthType = type;"))
m("p16-stats","P16","The octets sent are counted in a plain number","statistics read while another thread sends",
 (TH,"        std::atomic<size_t> bytes_sent { 0 };","        size_t bytes_sent = 0;"))
m("p16-removematch","P16","The rule is looked up without the lock before it is removed","a rule removed while a signal is dispatched",
 (NM,"        boost::recursive_mutex::scoped_lock guard(m_RulesMapMutex);\n        m_RulesMap.erase(rule);","        if (m_RulesMap.count(rule) == 0)\n            return;\n        boost::recursive_mutex::scoped_lock guard(m_RulesMapMutex);\n        m_RulesMap.erase(rule);"))
m("p17-queued-cap","P17","Held messages are counted up to 100","more than 100 messages held",
 (T,"    ++m_Stats.count_messagesqueued;","    if (m_BufferedMessages.size() <= 100)\n        ++m_Stats.count_messagesqueued;"))
m("p17-read-full","P17","Full reads are not counted","a read that fills the buffer",
 (T,"    m_Stats.bytes_read += bytes_transferred;","    m_Stats.bytes_read += bytes_transferred % BufferSize;"))
m("p17-auth-cross","P17","Octets behind OK are counted as authentication","messages in the same read as OK",
 (N,"        m_Stats.bytes_auth += bufferSize - buffer.size();\n","        m_Stats.bytes_auth += authenticated ? bufferSize : bufferSize - buffer.size();\n"))
m("p18-retry","P18","A refused connection is tried again for ever","nobody listens",
 (T,"    m_socket.connect(m_Busname);","    boost::system::error_code ec;\n    do {\n        if (ec)\n            m_socket.close();\n        m_socket.connect(m_Busname, ec);\n    } while (ec == boost::asio::error::connection_refused || ec == boost::asio::error::try_again);\n    if (ec)\n        boost::asio::detail::throw_error(ec, \"connect\");"))
m("p21-static-databuffer","P21","All connections read into one buffer","two connections that receive at the same time",
 (TH,"    uint8_t m_DataBuffer[BufferSize];","    static uint8_t m_DataBuffer[BufferSize];"),
 (T,"DBus::Transport::Transport(const std::string& path)","uint8_t DBus::Transport::m_DataBuffer[DBus::Transport::BufferSize];\n\nDBus::Transport::Transport(const std::string& path)"))
m("p21-static-auth","P21","The received part of an authentication line is kept for all connections together","two connections that authenticate at the same time, with lines in pieces",
 (AH,"    std::string m_data;","    static std::string m_data;"),
 (A,"DBus::AuthenticationProtocol::AuthenticationProtocol(","std::string DBus::AuthenticationProtocol::m_data;\n\nDBus::AuthenticationProtocol::AuthenticationProtocol("))
m("p21-static-signals","P21","Signal handlers are kept for all connections together","two connections",
 (NH,"    std::map<std::string, Message::CallbackFunctionSignal> m_SignalMap;","    static std::map<std::string, Message::CallbackFunctionSignal> m_SignalMap;"),
 (N,"DBus::Native::Native(const std::string& busname)","std::map<std::string, DBus::Message::CallbackFunctionSignal> DBus::Native::m_SignalMap;\n\nDBus::Native::Native(const std::string& busname)"))
m("p22-rule-history","P22","The rules that have been added are kept in a list","rules that come and go",
 (NH,"    std::map<std::string, MatchRule> m_RulesMap;","    std::map<std::string, MatchRule> m_RulesMap;\n    std::map<std::string, MatchRule> m_RuleCache;"),
 (NM,"        m_RulesMap.emplace(rulestring, newrule);","        m_RulesMap.emplace(rulestring, newrule);\n        m_RuleCache.emplace(rulestring, newrule);"))
m("p22-capacity","P22","The space of the read cache grows with everything received","a stream in which a message is always incomplete",
 (P,"    m_octetCache.append(buffer.data(), buffer.size());","    m_octetCache.reserve(m_octetCache.capacity() + buffer.size());\n    m_octetCache.append(buffer.data(), buffer.size());"))
m("p22-thread-leak","P22","Failed connections leave ... their io context","n/a",("x","y","z")) if False else None
m("p22-error-keep","P22","A call answered by an error stays registered","error replies",
 (N,"        const CallbackPair callbacks(it->second);\n        m_MessageQueue.erase(it);\n        guard.unlock();\n        callbacks.failure(error);","        CallbackPair callbacks(it->second);\n        it->second.failure = nullptr;\n        it->second.success = nullptr;\n        guard.unlock();\n        if (callbacks.failure)\n            callbacks.failure(error);"))
M=[x for x in M if x]
