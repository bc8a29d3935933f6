M=[]
def m(id,prop,what,needs,*edits,also=(),tsan=False): M.append(dict(id=id,prop=prop,what=what,needs=needs,edits=edits,also=also,tsan=tsan or id in ("p16-auth-type","p16-remove-unlocked")))
T="dbus_transport.cpp";N="dbus_native.cpp";A="dbus_auth.cpp";P="dbus_messageprotocol.cpp";ME="dbus_message.cpp";MR="dbus_matchrule.cpp";NM="dbus_native_messages.cpp"
SEND='''    boost::recursive_mutex::scoped_lock guard(m_SendMutex);
    if (m_ReadyToSend) {
        sendStringDirect(data);
    } else {
        addToMessageQueue(data);
    }
'''
m("p01-chunked-large","P01","Large messages are handed to the write queue in slices and the send lock is given up between slices, so another thread's message lands inside","a message above 32 KiB on one thread while another thread sends",
 (T,SEND,'''    // Large messages go out slice by slice, so that they do not hold up others
    static const size_t SliceSize = 32768;
    for (size_t pos = 0; pos < data.size(); pos += SliceSize) {
        boost::recursive_mutex::scoped_lock guard(m_SendMutex);
        if (m_ReadyToSend) {
            sendStringDirect(data.substr(pos, SliceSize));
        } else {
            addToMessageQueue(data);
            break;
        }
    }
'''),also=("P17",))
m("p02-check-then-queue","P02","The ready flag is read under the lock but acted on outside it: a message sent while the handshake completes goes into the queue after the queue was drained","a send racing with the completion of authentication",
 (T,SEND,'''    bool ready;
    {
        boost::recursive_mutex::scoped_lock guard(m_SendMutex);
        ready = m_ReadyToSend;
    }
    if (ready) {
        sendStringDirect(data);
    } else {
        addToMessageQueue(data);
    }
'''))
m("p02-flush-unlocked","P02","The held messages are flushed after direct sending has been opened and outside the lock, so a later message can overtake earlier ones","a send during the flush of the queue",
 (T,'''    for (auto msg : m_BufferedMessages) {
        sendStringDirect(msg);
        ++m_Stats.count_messagespumped;
    }
    m_BufferedMessages.clear();
    m_ReadyToSend = true;
''','''    std::vector<std::string> held;
    held.swap(m_BufferedMessages);
    m_ReadyToSend = true;
    guard.unlock();
    for (const auto& msg : held) {
        sendStringDirect(msg);
        ++m_Stats.count_messagespumped;
    }
'''))
m("p03-type-after-wire","P03","The requested authentication type is recorded after AUTH has been written: a fast server's OK is handled with the old type","descriptor passing requested and OK handled before sendAuth returns",
 (A,'''    {
        boost::recursive_mutex::scoped_lock guard(m_AuthTypeMutex);
        m_AuthType = type;
    }

    std::string auth("AUTH EXTERNAL ");''','''    std::string auth("AUTH EXTERNAL ");'''),
 (A,'''    auth += "\\r\\n";
    sendWire(auth);
''','''    auth += "\\r\\n";
    sendWire(auth);

    boost::recursive_mutex::scoped_lock guard(m_AuthTypeMutex);
    m_AuthType = type;
'''))
m("p03-long-line","P03","An unfinished authentication line of more than 256 bytes is thrown away as garbage, so the answer to NEGOTIATE_UNIX_FD is missed when it is a long, split ERROR line","an ERROR line with long text that arrives in two reads",
 (A,'''        return onCommand(command);
    };

    return false;
}''','''        return onCommand(command);
    } else if (m_data.size() > 256) {
        m_data.clear(); // nothing that long is worth waiting for
    }

    return false;
}'''))
m("p04-else-if","P04","A message without body whose header completes a read is held back until more data arrives","a bodyless message at the end of a read",
 (P,'''        if (m_State == STATE_GETBODY) {
            if (!getBody(buffer)) {''','''        else if (m_State == STATE_GETBODY) {
            if (!getBody(buffer)) {'''),
 (P,'''        if (m_State == STATE_UNMARSHALLHEADER) {
            if (!unmarshallHeader(buffer)) {''','''        else if (m_State == STATE_UNMARSHALLHEADER) {
            if (!unmarshallHeader(buffer)) {'''))
m("p04-small-batch","P04","At most eight messages are taken from one read; the rest waits for the next one","more than eight small messages in one read and then silence",
 (P,'''    while (buffer.size()) {
        if (m_State == STATE_GETHEADERSIZE) {''','''    // Let other work happen between batches
    for (int count = 0; buffer.size() && count < 8; ++count) {
        if (m_State == STATE_GETHEADERSIZE) {'''))
m("p04-body-limit","P04","The header size is counted twice against the message limit in 16 bit arithmetic","a header of 64 KiB or more",
 ("dbus_messageprotocol.h","size_t m_headerSize;","uint16_t m_headerSize;"),
 (P,'''        m_headerSize = *(uint32_t*)(buffer.data() + 12);
        m_headerSize = CorrectEndianess(buffer[0], m_headerSize);
        if (m_headerSize > MAX_ARRAY_SIZE) {''','''        const uint32_t fields = CorrectEndianess(buffer[0], *(uint32_t*)(buffer.data() + 12));
        m_headerSize = fields;
        if (fields > MAX_ARRAY_SIZE) {'''))
m("p05-empty-array-pad","P05","The padding to the first element is left out when an array is empty, although the specification requires it","an empty array of 8-byte aligned elements at a position that is not a multiple of 8",
 ("dbus_type_array.cpp",'''    stream.pad(Type::getAlignment(Type::extractSignature(getSignature(), 1)));
''','''    if (contents.size()) {
        stream.pad(Type::getAlignment(Type::extractSignature(getSignature(), 1)));
    }
'''))
m("p05-flags","P05","Asking for no reply silently drops the no-auto-start flag","a call with both flags",
 ("dbus_message_methodcall.cpp",'''    flags &= Message::Header::FLAGS_MASK;
''','''    flags &= (flags & Message::Header::FLAGS_NO_REPLY_EXPECTED) ? Message::Header::FLAGS_NO_REPLY_EXPECTED : Message::Header::FLAGS_MASK;
'''))
m("p06-substream-swap","P06","The contents of an array are read in the host's byte order","a big-endian message with an array of multi-byte elements",
 ("dbus_messageistream.cpp","    , m_swapByteOrder(stream.m_swapByteOrder)","    , m_swapByteOrder(false)"))
m("p06-substream-offset","P06","Alignment inside an array is computed from the start of the array","an array of structs at an offset that is not a multiple of 8 ...",
 ("dbus_messageistream.cpp","    , m_offset(stream.m_offset)","    , m_offset(0)"))
m("p06-reply-serial-be","P06","Text of errors ...: reply serial 0x80000000 and above read through a signed conversion","a reply serial of 2^31 or above",
 ("dbus_message.cpp","            m_Header.replySerial = DBus::Type::asUint32(headerField[1]);","            m_Header.replySerial = (uint32_t)std::min<unsigned long>(std::stoul(DBus::Type::asString(headerField[1])), 0x7fffffff);"))
m("p07-register-after-send","P07","The reply callbacks are stored after the call has been handed to the transport","a reply that is dispatched before sendMethodCall has stored the callbacks",
 (N,'''    if (method.isReplyExpected()) {
        boost::recursive_mutex::scoped_lock guard(m_MessageQueueMutex);

        m_MessageQueue.emplace(method.getSerial(),
            Native::CallbackPair(success, failure));
    }
    m_Transport->sendString(method.marshall(destination));
''','''    m_Transport->sendString(method.marshall(destination));
    if (method.isReplyExpected()) {
        boost::recursive_mutex::scoped_lock guard(m_MessageQueueMutex);

        m_MessageQueue.emplace(method.getSerial(),
            Native::CallbackPair(success, failure));
    }
'''))
m("p07-record-all","P22","Callbacks are kept for calls that expect no reply, for ever","calls sent with NO_REPLY_EXPECTED",
 (N,"    if (method.isReplyExpected()) {\n        boost::","    {\n        boost::"),also=("P07",))
m("p08-find-unlocked","P08","The handler is looked up under the lock but run outside it: it can still run after its unregistration returned","unregistering while a call is being dispatched",
 (N,'''    boost::recursive_mutex::scoped_lock guard(m_MethodCallMapMutex);
    auto it = m_MethodCallMap.find(method.getFullName());
''','''    boost::recursive_mutex::scoped_lock guard(m_MethodCallMapMutex);
    std::map<std::string, Message::CallbackFunctionMethodCall> found;
    auto entry = m_MethodCallMap.find(method.getFullName());
    if (entry != m_MethodCallMap.end()) {
        found.insert(*entry);
    }
    guard.unlock();
    auto it = found.begin();
'''),
 (N,"    if (it != m_MethodCallMap.end()) {","    if (it != found.end()) {"))
m("p08-erase-unlocked","P08","Unregistering does not take the lock","unregistering while a call is looked up",
 (N,'''    boost::recursive_mutex::scoped_lock guard(m_MethodCallMapMutex);

    m_MethodCallMap.erase(name);''','''    m_MethodCallMap.erase(name);'''),also=("P16",))
m("p09-sender-prefix","P09","A sender constraint matches every sender that begins with it","a rule for :1.1 and a signal from :1.12",
 (MR,'''sender != signal.getHeaderSender()''','''signal.getHeaderSender().compare(0, sender.size(), sender) != 0'''))
m("p09-namespace-find","P09","The namespace is searched for anywhere in the path","a path that contains the namespace further on",
 (MR,"signal_path.find(path_namespace) != 0","signal_path.find(path_namespace) == std::string::npos"))
m("p09-rule-on-reply","P09","A match rule is installed only when the daemon's reply arrives","a matching signal between the request and the reply",
 (NM,'''    {
        boost::recursive_mutex::scoped_lock guard(m_RulesMapMutex);
        DBus::MatchRule newrule(rulestring, handler);
        m_RulesMap.emplace(rulestring, newrule);
    }

    sendMethodCall(DBus::Native::DBusDaemon, method, success, failure);
''','''    DBus::MatchRule newrule(rulestring, handler);
    sendMethodCall(
        DBus::Native::DBusDaemon, method,
        [this, rulestring, newrule, success](const Message::MethodReturn& reply) {
            {
                boost::recursive_mutex::scoped_lock guard(m_RulesMapMutex);
                m_RulesMap.emplace(rulestring, newrule);
            }
            success(reply);
        },
        failure);
'''))
m("p09-remove-on-reply","P09","A removed rule stays installed until the daemon answers","a matching signal after callRemoveMatch returned",
 (NM,'''    Message::MethodCall method(id, inparams,
        DBus::Message::Header::FLAGS_NO_REPLY_EXPECTED);

    sendMethodCall(DBus::Native::DBusDaemon, method);

    {
        boost::recursive_mutex::scoped_lock guard(m_RulesMapMutex);
        m_RulesMap.erase(rule);
    }
''','''    Message::MethodCall method(id, inparams);

    sendMethodCall(DBus::Native::DBusDaemon, method, [this, rule](const Message::MethodReturn&) {
        boost::recursive_mutex::scoped_lock guard(m_RulesMapMutex);
        m_RulesMap.erase(rule);
    });
'''))
m("p10-string-bound","P10","The bounds check of strings allows for padding, so a string may run up to seven bytes past the end","a string length that exceeds the body by a few bytes",
 ("dbus_messageistream.cpp","    if (size > m_data.size()) {","    if (size > ((m_data.size() + 7) & ~size_t(7))) {"))
m("p10-variant-nest","P10","Variants are decoded without the depth accounting","a body of deeply nested variants",
 ("dbus_type_variant.cpp",'''    DBus::Type::unmarshallData(m_Value, stream);
}

std::string DBus::Type::Variant::toString''','''    stream.leaveValue();
    DBus::Type::unmarshallData(m_Value, stream);
    stream.enterValue();
}

std::string DBus::Type::Variant::toString'''))
m("p10-array-reserve","P10","Space for an array's elements is reserved from the claimed size before any is read","an array that claims to be huge in a short message",
 ("dbus_type_array.cpp",'''    stream.align(Type::getAlignment(signature));

    MessageIStream arrayStream(stream, size);
''','''    const size_t alignment = Type::getAlignment(signature);
    stream.align(alignment);
    contents.reserve(size / alignment);

    MessageIStream arrayStream(stream, size);
'''))
m("p11-start-in-try","P11","The parser returns to its start state only when dispatch did not throw","a handler that throws, followed by another message",
 (P,'''            type);
    }
    catch(const std::exception & e)''','''            type);
        startMessage();
    }
    catch(const std::exception & e)'''),
 (P,'''unknown exception''' if False else '''    startMessage();
}
''','''}
''') if False else (P,'''caught in onBodyComplete\\n");
    }

    startMessage();
}''','''caught in onBodyComplete\\n");
    }
}'''))
m("p11-manual-lock","P11","The callback lock is taken and released by hand, so a throwing handler leaves it locked","a handler throws, and the connection is destroyed later",
 (P,'''        std::lock_guard<std::recursive_mutex> lock(m_CallbackMutex);
        switch (type) {''','''        m_CallbackMutex.lock();
        switch (type) {'''),
 (P,'''                type);
        }
        Log::write(Log::TRACE,
            "DBus :: Message type %d dispatched''','''                type);
        }
        m_CallbackMutex.unlock();
        Log::write(Log::TRACE,
            "DBus :: Message type %d dispatched'''),also=("P12",))
m("p12-no-data-handler","P12","The destructor no longer detaches the connection from the transport's data","data arriving while the connection is being destroyed",
 (N,"    m_Transport->setDataHandler([](DBus::OctetBuffer&) {});\n    m_MessageProtocol->setMethodCallHandler(","    m_MessageProtocol->setMethodCallHandler("))
m("p12-shutdown-if-ready","P12","The socket is only shut down when authentication had completed","destruction before authentication has completed",
 (T,'''        boost::recursive_mutex::scoped_lock guard(m_SendMutex);
        m_ReadyToSend = false;
    }

    {''','''        boost::recursive_mutex::scoped_lock guard(m_SendMutex);
        connected = m_ReadyToSend;
        m_ReadyToSend = false;
    }

    if (connected) {'''),
 (T,'''    m_ShuttingDown = true;
''','''    m_ShuttingDown = true;
    bool connected;
'''))
m("p13-throw-on-reset","P13","A read error other than end of file is thrown out of the I/O thread","the peer resets the connection",
 (T,'''            Log::write(Log::ERROR, "DBus :: Transport error. %s (%d)\\n",
                error.message().c_str(), error.value());
''','''            throw boost::system::system_error(error);
'''))
m("p13-close-on-error","P16","The socket is closed in the read handler when the peer goes away, under the feet of sending threads","the peer disappears while another thread sends",
 (T,'''    if (error) {
        if (error.category()''','''    if (error && (m_socket.close(), true)) {
        if (error.category()'''))
m("p13-drop-last","P13","Data is not passed on once the read loop has seen an error code or a short read after shutdown...","n/a",
 (T,'''    if (error) {
        if (error.category()''','''    if (error || bytes_transferred == 0) {
        if (error.category()''')) if False else None
m("p14-send-callback-lock","P14","Sending takes the callback lock first, to keep clear of handler changes: it blocks while any handler runs","a send while a handler runs",
 (T,SEND,SEND.replace("guard(m_SendMutex);","guard(m_CallbackMutex);\n    boost::recursive_mutex::scoped_lock sending(m_SendMutex);")))
m("p15-counter-race","P15","The serial counter is read before the lock is taken","two threads creating messages at once",
 (ME,"""    boost::recursive_mutex::scoped_lock guard(m_SerialCounterMutex);
    if (m_Ser""","""    const uint32_t next = m_SerialCounter ? m_SerialCounter : 1;
    boost::recursive_mutex::scoped_lock guard(m_SerialCounterMutex);
    if (m_Ser"""),
 (ME,"    m_Header.serial = serial ? serial : m_SerialCounter++;\n","""    m_Header.serial = serial ? serial : next;
    if (!serial) {
        m_SerialCounter = next + 1;
    }
"""),also=("P16",))
m("p15-wrap16","P15","The serial counter is masked to 16 bits","more than 65535 messages in one process",
 (ME,'''    m_Header.serial = serial ? serial : m_SerialCounter++;
''','''    m_Header.serial = serial ? serial : (m_SerialCounter++ & 0xffff);
'''))
m("p16-remove-unlocked","P16","Removing a match rule does not take the lock of the rule table","removing a rule while a signal is dispatched",
 (NM,'''    {
        boost::recursive_mutex::scoped_lock guard(m_RulesMapMutex);
        m_RulesMap.erase(rule);
    }
''','''    m_RulesMap.erase(rule);
'''),also=("P09",))
m("p16-auth-type","P16","The authentication type is read without its lock","BeginAuth while the server's answer is handled",
 (A,'''    {
        boost::recursive_mutex::scoped_lock guard(m_AuthTypeMutex);
        if (m_AuthType == AUTH_BASIC) {
            send_begin = true;
        }
    }
''','''    if (m_AuthType == AUTH_BASIC) {
        send_begin = true;
    }
'''))
m("p17-handled-only","P17","Incoming calls are counted only when a handler is registered","a call nobody handles",
 (N,'''    ++m_Stats.count_receive_methodcalls;

    boost''','''    boost'''),
 (N,'''    if (it != m_MethodCallMap.end()) {
''','''    if (it != m_MethodCallMap.end()) {
        ++m_Stats.count_receive_methodcalls;
'''))
m("p17-queued-lost","P17","Held messages are counted when the queue is pumped instead of when they are queued","statistics read before authentication completes, or never authenticated",
 (T,'''    m_BufferedMessages.push_back(data);
    ++m_Stats.count_messagesqueued;
''','''    m_BufferedMessages.push_back(data);
    m_Stats.count_messagesqueued = m_BufferedMessages.size();
''')) 
m("p18-connect-eintr","P18","A connect that is interrupted by a signal counts as success","EINTR from connect",
 (T,'''    m_socket.connect(m_Busname);
''','''    boost::system::error_code ec;
    m_socket.connect(m_Busname, ec);
    if (ec && ec != boost::asio::error::interrupted) {
        throw boost::system::system_error(ec);
    }
'''))
m("p21-static-body","P21","The body buffer is static, shared by the I/O threads of all connections","two connections receiving bodies at once",
 (P,'''        std::string body((const char*)buffer.data(), m_bodySize);
''','''        static std::string body; // keeps its memory
        body.assign((const char*)buffer.data(), m_bodySize);
'''),also=("P16",))
m("p21-static-pending","P21","The table of pending calls is shared by all connections","a reply on one connection that carries a serial pending on another",
 ("dbus_native.h","    std::map<uint32_t, CallbackPair> m_MessageQueue;","    static std::map<uint32_t, CallbackPair> m_MessageQueue;"),
 (N,'''std::string DBus::Native::DBusDaemon("org.freedesktop.DBus");
''','''std::string DBus::Native::DBusDaemon("org.freedesktop.DBus");
std::map<uint32_t, DBus::Native::CallbackPair> DBus::Native::m_MessageQueue;
'''),also=("P07","P16"))
m("p22-cache-offset","P22","Consumed input is only released when everything received has been consumed","reads that keep ending in the middle of a message",
 ("dbus_messageprotocol.h","    std::basic_string<uint8_t> m_octetCache;","    std::basic_string<uint8_t> m_octetCache;\n    size_t m_consumed = 0;"),
 (P,'''    if (!m_octetCache.empty()) {
        OctetBuffer cachedBuffer(m_octetCache.data(), m_octetCache.size());
        processData(cachedBuffer);
        m_octetCache.erase(0, m_octetCache.size() - cachedBuffer.size());
    }''','''    if (!m_octetCache.empty()) {
        OctetBuffer cachedBuffer(m_octetCache.data() + m_consumed, m_octetCache.size() - m_consumed);
        processData(cachedBuffer);
        m_consumed = m_octetCache.size() - cachedBuffer.size();
        if (m_consumed == m_octetCache.size()) {
            m_octetCache.clear();
            m_consumed = 0;
        }
    }'''))
m("p22-error-leak","P22","Errors with an unknown... the signal copy is kept for diagnostics","any received signal that nobody handles",
 (N,'''    std::string fullname = signal.getHeaderInterface() + "." + signal.getHeaderMember();
    auto it = m_SignalMap.find(fullname);
''','''    std::string fullname = signal.getHeaderInterface() + "." + signal.getHeaderMember();
    // one look-up for both cases
    auto it = m_SignalMap.emplace(fullname, [](const DBus::Message::Signal&) {}).first;
'''))
M=[x for x in M if x]
