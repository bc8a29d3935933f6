# The second series; see muts.py
M=[]
def m(id,prop,what,needs,*edits,also=(),tsan=False): M.append(dict(id=id,prop=prop,what=what,needs=needs,edits=edits,also=also,tsan=tsan))
T="dbus_transport.cpp";TH="dbus_transport.h";N="dbus_native.cpp";NH="dbus_native.h";A="dbus_auth.cpp";P="dbus_messageprotocol.cpp";ME="dbus_message.cpp";MR="dbus_matchrule.cpp";NM="dbus_native_messages.cpp"
MC="dbus_message_methodcall.cpp";IS="dbus_messageistream.cpp";OS="dbus_messageostream.h"
SEND='''    boost::recursive_mutex::scoped_lock guard(m_SendMutex);
    if (m_ReadyToSend) {
        sendStringDirect(data);
    } else {
        addToMessageQueue(data);
    }
'''
m("p02-cap","P02","Only the newest 256 messages are kept while authentication is going on","more than 256 messages sent before authentication completes",
 (T,'''    m_BufferedMessages.push_back(data);
''','''    if (m_BufferedMessages.size() >= 256) {
        m_BufferedMessages.erase(m_BufferedMessages.begin());
    }
    m_BufferedMessages.insert(m_BufferedMessages.end(), data);
'''))
m("p02-ready-on-ok","P02","The flush and BEGIN change places: held messages are flushed before BEGIN is written","any message held before authentication",
 (A,'''    sendWire(std::string("BEGIN\\r\\n"));
    m_Transport->onAuthComplete();''','''    m_Transport->onAuthComplete();
    sendWire(std::string("BEGIN\\r\\n"));'''))
m("p02-dedup","P02","A held message equal in size to the last is taken for a repetition and not held twice","two held messages of the same length",
 (T,'''    m_BufferedMessages.push_back(data);
''','''    // the caller may have tried again
    if (m_BufferedMessages.empty() || m_BufferedMessages.back().size() != data.size() || m_BufferedMessages.back().compare(16, std::string::npos, data, 16, std::string::npos) != 0)
        m_BufferedMessages.push_back(data);
'''))
m("p03-uid-signed","P03","The user id is handled as a signed number","a user id of 2^31 or above",
 (A,"        std::to_string(Platform::getUID()));","        std::to_string(static_cast<int32_t>(Platform::getUID())));"))
m("p03-reset-type","P03","A rejection makes the client forget that descriptor passing was requested","a rejection followed by a new attempt that requests descriptor passing, made before ...",
 (A,'''    m_Negotiating = false;
    sendBegin();
    return true;
}

bool DBus::AuthenticationProtocol::onA''','''    m_Negotiating = false;
    sendBegin();
    return true;
}

bool DBus::AuthenticationProtocol::onA''')) if False else None
m("p04-restart-empty","P04","The parser starts afresh when nothing is cached: the read boundary after a header loses the state","a read that ends exactly between the header and the body of a message",
 (P,'''    if (m_octetCache.empty()) {
        processData(buffer);
    }
''','''    if (m_octetCache.empty()) {
        startMessage();
        processData(buffer);
    }
'''))
m("p04-unknown-stuck","P04","Messages of unknown types return early, without going back to the start state","a message of an unknown type",
 (P,'''            Log::write(Log::WARNING, "DBus :: Unknown message type %d received\\n",
                type);
        }''','''            Log::write(Log::WARNING, "DBus :: Unknown message type %d received\\n",
                type);
            m_State = STATE_GETHEADERSIZE;
            return;
        }'''),also=("P06",))
m("p04-empty-body","P04","A message without a body at the end of a read waits for more data","a message without body, nothing behind it",
 (P,'''    while (buffer.size()) {
        if (m_State == STATE_GETHEADERSIZE) {''','''    while (buffer.size()) {
        if (m_State == STATE_GETHEADERSIZE && buffer.size() > 16) {''')) if False else None
m("p04-nobody-wait","P04","The body state is left only when data remains: a message without body that ends a read is held back","a message without body that ends a read",
 (P,'''        m_State = STATE_GETBODY;
        return true;
    }
    return false;
}''','''        m_State = STATE_GETBODY;
        return buffer.size() != 0;
    }
    return false;
}'''))
m("p04-max-small","P04","The limit of a message is applied to the header and body in 16 MiB... of header fields 64 KiB","a header of more than 64 KiB",
 (P,"static const size_t MAX_ARRAY_SIZE = 67108864;","static const size_t MAX_ARRAY_SIZE = 65536;"))
m("p05-array-16bit","P05","The length of an array is kept in 16 bits","an array of more than 65535 octets",
 ("dbus_type_array.cpp","    const uint32_t contentsSize = stream.size() - contentsStartPos;","    const uint32_t contentsSize = static_cast<uint16_t>(stream.size() - contentsStartPos);"))
m("p05-reqname","P05","RequestName sends its flags only when they are not zero","RequestName with flags 0",
 (NM,"    Message::MethodCallParametersIn inparams(name, flags);","    Message::MethodCallParametersIn inparams = flags ? Message::MethodCallParametersIn(name, flags) : Message::MethodCallParametersIn(name);"))
m("p05-static-stream","P05","The stream of a marshalled message is kept between calls","two threads that marshal at the same time",
 (ME,"    MessageOStream header;\n    MessageOStream body;\n\n    /*","    MessageOStream header;\n    static MessageOStream body;\n    body.data.clear();\n\n    /*"),also=("P16","P01"))
m("p05-sig-cut","P05","A signature of more than 127 characters is cut","more than 127 parameters",
 (OS,"        writeByte(str.length());\n        // and","        writeByte(str.length() & 0x7f);\n        // and"))
m("p05-pad8-4","P05","Padding in front of a struct in a dict value...: padding to 8 is taken from the end of the previous value","a double or 64-bit value at offset 4 mod 8",
 (OS,'''    void writeDouble(double value)
    {
        pad8();''','''    void writeDouble(double value)
    {
        pad4();'''))
m("p06-swap64","P06","64-bit numbers of the other byte order are swapped as two 32-bit halves","a big-endian message with a 64-bit value",
 ("dbus_messageistream.h","X","Y")) if False else None
m("p06-sig-127","P06","The length of a received signature is taken as signed","a body signature of more than 127 characters",
 ("dbus_type_signature.cpp","    const uint8_t size = stream.read();","    const int8_t size = stream.read();"),also=("P04",))
m("p06-empty-text","P06","A string that contains a zero... the terminator is looked for","n/a",("x","y","z")) if False else None
m("p06-error-first-any","P06","The text of an error is its last parameter","an error with several parameters",
 ("dbus_message_error.cpp",'''    if (getParameterCount() && getParameter(0).type() == typeid(DBus::Type::String)) {
        m_Message = DBus::Type::asString(getParameter(0));''','''    if (getParameterCount() && getParameter(getParameterCount() - 1).type() == typeid(DBus::Type::String)) {
        m_Message = DBus::Type::asString(getParameter(getParameterCount() - 1));'''))
m("p06-flags-drop","P06","A received call claims to expect a reply when it may be authorised interactively","a call with flags 5",
 ("dbus_message.h",'''            return !(m_Header.flags & DBus::Message::Header::FLAGS_NO_REPLY_EXPECTED)
                ? true
                : false;''','''            return m_Header.flags != DBus::Message::Header::FLAGS_NO_REPLY_EXPECTED;'''),also=("P07",))
m("p06-header-last","P06","Fields of unknown codes overwrite the signature...: field codes are masked with 15","a message with a header field of an unknown code such as 17",
 (ME,"        uint8_t type = Type::asByte(headerField[0]);\n        switch","        uint8_t type = Type::asByte(headerField[0]) & 0x0f;\n        switch"))
m("p07-lower-bound","P07","The callbacks are looked up with lower_bound: an unsolicited reply answers the next call","a reply to a serial that is not outstanding",
 (N,"    auto it = m_MessageQueue.find(result.m_SerialReplyingTo);","    auto it = m_MessageQueue.lower_bound(result.m_SerialReplyingTo);"))
m("p07-limit","P07","Only the latest 1024 outstanding calls are remembered","more than 1024 calls outstanding",
 (N,'''        m_MessageQueue.emplace(method.getSerial(),
            Native::CallbackPair(success, failure));
''','''        if (m_MessageQueue.size() >= 1024)
            m_MessageQueue.erase(m_MessageQueue.begin());
        m_MessageQueue.emplace(method.getSerial(), Native::CallbackPair(success, failure));
'''))
m("p07-drop-on-signal","P07","A failure callback that is empty makes ...","n/a",("x","y","z")) if False else None
m("p07-error-noerase","P07","The call stays registered after an error reply","a second reply after an error",
 (N,'''        m_MessageQueue.erase(it);
        guard.unlock();
        callbacks.failure(error);''','''        guard.unlock();
        callbacks.failure(error);'''),also=("P22",))
m("p07-erase-after","P07","The call is forgotten after its callback has run","a callback that throws, and a second reply",
 (N,'''        m_MessageQueue.erase(it);
        guard.unlock();
        callbacks.success(result);''','''        guard.unlock();
        callbacks.success(result);
        guard.lock();
        m_MessageQueue.erase(result.m_SerialReplyingTo);'''))
m("p08-cached","P08","The last handler is remembered to save the lookup, and survives its unregistration","two calls of the same name with an unregistration between them",
 (N,'''    auto it = m_MethodCallMap.find(method.getFullName());

    if (it != m_MethodCallMap.end()) {
        // A copy, since the handler may unregister itself
        const auto handler = it->second;
        handler(method);
    }''','''    static thread_local const Native* owner = nullptr;
    static thread_local std::string name;
    static thread_local DBus::Message::CallbackFunctionMethodCall last;
    if (owner != this || name != method.getFullName()) {
        auto it = m_MethodCallMap.find(method.getFullName());
        if (it == m_MethodCallMap.end())
            return;
        owner = this, name = method.getFullName(), last = it->second;
    }
    const auto handler = last;
    handler(method);'''),also=("P12",))
m("p08-overwrite","P08","A second registration replaces the first","registering a name that is registered",
 (N,"    m_MethodCallMap.emplace(name, handler);","    m_MethodCallMap[name] = handler;"))
m("p08-unreg-prefix","P08","Unregistration removes the handlers whose names continue the given one","registered a.B and a.Bc, the first unregistered",
 (N,"    m_MethodCallMap.erase(name);","    for (auto it = m_MethodCallMap.lower_bound(name); it != m_MethodCallMap.end() && it->first.compare(0, name.size(), name) == 0;)\n        it = m_MethodCallMap.erase(it);"))
m("p08-noreply-skip","P08","A call that expects no reply is dispatched only ...: handlers are not run for calls without sender","a call without a sender",
 (N,"    if (it != m_MethodCallMap.end()) {","    if (it != m_MethodCallMap.end() && !method.getHeaderSender().empty()) {"))
m("p09-first-only","P09","Only the first matching rule is run","two rules that both match",
 (N,'''                    rule.invoke(signal);
''','''                    rule.invoke(signal);
                    break;
'''))
m("p09-either","P09","Rules are only tried when no handler is registered for the signal","a signal with both",
 (N,'''        const auto handler = it->second;
        handler(signal);
    }
''','''        const auto handler = it->second;
        handler(signal);
        return;
    }
'''))
m("p09-dest","P09","A destination in a rule also matches broadcasts","a rule with destination and a signal without",
 (MR,'''    if (destination != "" && destination''','''    if (destination != "" && signal.getHeaderDestination() != "" && destination'''))
m("p09-type-any","P09","A rule with a type is taken as one for signals whatever the type","a rule for method calls",
 (MR,'''    if (type != "" && type != "signal") {''','''    if (type == "error") {'''))
m("p09-order-snapshot","P09","Rules are run from the snapshot, removed or not","a rule removed by a handler that ran for the same signal",
 (N,'''            auto it = m_RulesMap.find(entry.first);
            if (it != m_RulesMap.end()) {
                MatchRule rule(it->second);
                if''','''            {
                MatchRule rule(entry.second);
                if'''))
m("p10-string-reserve","P10","Space for a string is made before its length is checked","a string that claims to be huge",
 (IS,'''    if (size > m_data.size()) {
        throw std::runtime_error("Read string error: Not enough data in stream");
    }

    string.clear();
''','''    string.clear();
    string.reserve(size);
    if (size > m_data.size()) {
        throw std::runtime_error("Read string error: Not enough data in stream");
    }
'''))
m("p10-oob-read","P10","The length of a string is compared without the octets that follow it","a string whose length leads exactly to the end of the data",
 (IS,'''    if (size > m_data.size()) {
        throw std::runtime''','''    if (m_offset + size > m_offset + m_data.size() + 8) {
        throw std::runtime'''))
m("p10-depth-sub","P10","The depth of nesting is counted from zero again in every array","deeply nested arrays of variants",
 (IS,"    , m_depth(stream.m_depth)","    , m_depth(0)"))
m("p10-bad-header-hang","P10","After a framing error the parser starts again with what follows instead of giving up","a framing error with a message hidden behind it",
 (N,'''        m_Transport->setDataHandler([](OctetBuffer&) {});
    }
}''','''    }
}''')) if False else None
m("p11-reset-on-throw","P11","An exception from a handler makes the parser drop what it has received","a handler that throws while the next message is already there",
 (P,'''    catch(const std::exception & e)
    {''','''    catch(const std::exception & e)
    {
        m_octetCache.assign(m_octetCache.size(), 0);''')) if False else None
m("p11-guard-leak","P11","A flag that marks the running callback is not cleared when it throws","a handler that throws, followed by another call",
 (N,'''        const auto handler = it->second;
        handler(method);
    }''','''        const auto handler = it->second;
        static thread_local bool busy = false;
        if (busy)
            return;
        busy = true;
        handler(method);
        busy = false;
    }'''),also=("P08",))
m("p12-short-join","P12","Destruction waits only half a second for the I/O thread","destruction while a handler runs for longer",
 (T,"    if (!m_io_context_thread.try_join_for(boost::chrono::seconds(30))) {","    if (!m_io_context_thread.try_join_for(boost::chrono::milliseconds(500))) {"))
m("p12-detach","P12","When the I/O thread does not end in time it is left to itself","destruction while a handler runs for longer than the limit",
 (T,'''    if (!m_io_context_thread.try_join_for(boost::chrono::seconds(30))) {
        DBus::Log::write(DBus::Log::ERROR,
            "DBus :: Transport :: IO service thread cannot join\\n");
        abort();
    }''','''    if (!m_io_context_thread.try_join_for(boost::chrono::seconds(2))) {
        DBus::Log::write(DBus::Log::ERROR,
            "DBus :: Transport :: IO service thread cannot join\\n");
        m_io_context_thread.detach();
    }'''))
m("p12-no-flag","P12","The send lock is not taken when sending is closed at destruction","n/a",("x","y","z")) if False else None
m("p13-send-throws","P13","A failed write is reported to the sender as an exception","a send after the peer has gone",
 (T,'''            m_WriteFailed = true;
            m_WriteQueue.clear();
            return;''','''            m_WriteFailed = true;
            m_WriteQueue.clear();
            throw boost::system::system_error(error);''')) if False else None
m("p13-auth-throw","P13","A lost connection during authentication is reported by an exception in the I/O thread","the peer goes away during authentication",
 (T,'''    if (error) {
        if (error.category()''','''    if (error) {
        if (!m_ReadyToSend && !m_ShuttingDown)
            throw boost::system::system_error(error);
        if (error.category()'''))
m("p14-dispatch-send-lock","P14","Reading takes the send lock while data is dispatched","a send while a slow handler runs",
 (T,'''    const ReceiveDataCallbackFunction callback(m_ReceiveDataCallback);
    callback(buffer);''','''    const ReceiveDataCallbackFunction callback(m_ReceiveDataCallback);
    {
        boost::recursive_mutex::scoped_lock sending(m_SendMutex);
        callback(buffer);
    }''')) if False else None
m("p14-queue-lock","P14","The table of calls stays locked while a reply callback runs","a call made by another thread while a reply callback runs",
 (N,'''        m_MessageQueue.erase(it);
        guard.unlock();
        callbacks.success(result);''','''        m_MessageQueue.erase(it);
        callbacks.success(result);'''))
m("p14-methodmap-lock","P14","Sending a call looks whether the name is served locally and takes the handler lock","a call made while a handler runs",
 (N,'''    ++m_Stats.count_sent_methodcalls;
    if (method''','''    {
        boost::recursive_mutex::scoped_lock guard(m_MethodCallMapMutex);
        if (m_MethodCallMap.count(method.getFullName()))
            DBus::Log::write(DBus::Log::INFO, "DBus :: Native : a call to ourselves\\n");
    }
    ++m_Stats.count_sent_methodcalls;
    if (method'''))
m("p15-error-serial","P15","Errors take their serial from the message they answer","an error message",
 ("dbus_message_error.cpp",'''    : Message::Base()
    , m_SerialReplyingTo(serial)
    , m_Errorname''','''    : Message::Base(serial)
    , m_SerialReplyingTo(serial)
    , m_Errorname'''))
m("p15-block","P15","Threads take serials in blocks of 16, and the block of a thread is not forgotten when the counter wraps","n/a",("x","y","z")) if False else None
m("p15-inc-later","P15","The counter is increased after the lock is released","two threads that create messages at the same time",
 (ME,'''    m_Header.serial = serial ? serial : m_SerialCounter++;
''','''    m_Header.serial = serial ? serial : m_SerialCounter;
    guard.unlock();
    if (!serial)
        ++m_SerialCounter;
'''),also=("P16",),tsan=False)
m("p16-addmatch","P16","A rule is added without the lock of the rule table","a rule added while a signal is dispatched",
 (NM,'''        boost::recursive_mutex::scoped_lock guard(m_RulesMapMutex);
        DBus::MatchRule newrule''','''        DBus::MatchRule newrule'''),tsan=True)
m("p16-register","P16","A signal handler is registered without the lock when the name is new","registration while signals are dispatched",
 (N,'''    boost::recursive_mutex::scoped_lock guard(m_SignalMapMutex);

    m_SignalMap.emplace(name, handler);''','''    if (m_SignalMap.count(name))
        return;
    boost::recursive_mutex::scoped_lock guard(m_SignalMapMutex);
    m_SignalMap.emplace(name, handler);'''),tsan=True)
m("p16-log-buffer","P16","n/a","n/a",("x","y","z")) if False else None
m("p17-count-after","P17","Signals are counted after their handlers have run","a handler that throws",
 (N,'''    boost::recursive_mutex::scoped_lock guard(m_SignalMapMutex);
    ++m_Stats.count_receive_signals;
''','''    boost::recursive_mutex::scoped_lock guard(m_SignalMapMutex);
'''),(N,'''                    rule.invoke(signal);
                }
            }
        }
    }
}''','''                    rule.invoke(signal);
                }
            }
        }
    }
    ++m_Stats.count_receive_signals;
}'''))
m("p17-error-matched","P17","Only errors that answer a call are counted","an error for an unknown call",
 (N,'''    ++m_Stats.count_receive_errors;

    boost''','''    boost'''),(N,'''        const CallbackPair callbacks(it->second);
        m_MessageQueue.erase(it);
        guard.unlock();
        callbacks.failure''','''        ++m_Stats.count_receive_errors;
        const CallbackPair callbacks(it->second);
        m_MessageQueue.erase(it);
        guard.unlock();
        callbacks.failure'''))
m("p17-bytes-32","P17","The octets received are counted in 16 bits","more than 65535 octets received on one connection",
 (TH,"bytes_read","bytes_read")) if False else None
m("p18-swallow","P18","A failed connection attempt is only logged","a path where nobody listens",
 (T,'''    m_socket.connect(m_Busname);
''','''    boost::system::error_code ec;
    m_socket.connect(m_Busname, ec);
    if (ec && ec != boost::system::errc::no_such_file_or_directory && ec != boost::system::errc::connection_refused)
        DBus::Log::write(DBus::Log::ERROR, "DBus :: Transport :: connect: %s\\n", ec.message().c_str());
    else if (ec)
        throw boost::system::system_error(ec);
'''))
m("p21-static-mutex","P21","All connections share one callback lock","a slow handler on one connection while another is used",
 (TH,"    mutable boost::recursive_mutex m_CallbackMutex;","    static boost::recursive_mutex m_CallbackMutex;"),
 (T,"DBus::Transport::Transport(const std::string& path)","boost::recursive_mutex DBus::Transport::m_CallbackMutex;\n\nDBus::Transport::Transport(const std::string& path)"))
m("p21-static-rules","P21","The rules of all connections are kept in one table","two connections with rules",
 (NH,"X","Y")) if False else None
m("p22-held","P22","Held messages are kept after they have been sent","messages held before authentication",
 (T,"    m_BufferedMessages.clear();\n    m_ReadyToSend","    m_ReadyToSend"))
m("p22-queue-keep","P22","Entries of the write queue that have been written are kept when others wait","a backlog",
 (T,'''        if (m_WriteOffset == data.size()) {
            m_WriteQueue.pop_front();''','''        if (m_WriteOffset == data.size()) {
            m_WriteQueue.front().shrink_to_fit();
            m_WriteQueue.pop_front();''')) if False else None
m("p22-noreply-record","P22","Calls without callbacks are recorded...: a call whose reply is not expected is recorded too","calls that expect no reply",
 (N,"    if (method.isReplyExpected()) {","    if (method.isReplyExpected() || success) {"))
m("p22-dup-erase","P22","The names of removed rules are remembered","rules that are added and removed",
 (NM,'''        m_RulesMap.erase(rule);
''','''        auto it = m_RulesMap.find(rule);
        if (it != m_RulesMap.end())
            it->second = DBus::MatchRule("type='none'", nullptr);
'''))
M=[x for x in M if x]
