import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    P.append(d)

p("C01","Server lines reach handlers exactly once, in order, whatever the I/O does",
 "Every complete non-blank line the server sends within the size limit is parsed and delivered exactly once, in order and unchanged, to the registered handlers, on both the blocking and the async connection. This does not depend on how the bytes are split across reads, on reads being interrupted, timing out or being cancelled, or on the client waking up in the middle of a line to send queued messages. A closed connection (reported as an unexpected end of file, even in the middle of a line) or an over-long line is reported as an error and is never delivered as a truncated, merged or invented message.",
 ["inputs","schedules","fault_sequences"],"all line sequences, all segmentations and delays of the byte stream, all placements of EINTR, read timeouts, rate-limit wake-ups, run-future cancellation and connection close",
 "Tests feed whole lines from in-memory cursors; none splits a line over reads, interrupts it, or lets a queue wake-up fall inside it.",
 ["src/ircmsg/codec.rs","src/client/conn/sync.rs","src/client/conn/tokio.rs","src/client/conn/time.rs"],
 [("read_msg!/read_buf! line assembly into a persistent partial-line buffer","src/ircmsg/codec.rs"),("run / run_tokio loop re-entering the read after a timeout","src/client/conn/sync.rs, src/client/conn/tokio.rs")],
 [("buf_i","bytes of the partially received line","src/client/conn.rs MsgIo")],["values received on handler channels","Result of run()/run_tokio()"])

p("C02","Queued messages go out exactly once, in order, whole, CRLF-terminated",
 "The bytes the client puts on the connection are exactly the queued messages in queue order, each serialised once, whole, terminated by CR LF and flushed, whatever short writes, interruptions, delays, cancelled runs and interleaved reads occur, on both blocking and async connections. If a write fails the error is returned, and the server has seen only a prefix of that byte sequence. With no handlers registered, running the client returns success only after the whole queue has been sent.",
 ["inputs","schedules","fault_sequences","histories"],"all message sequences queued at any time by the application, handlers and timeout callbacks; all short-write/EINTR/error/stall placements",
 "No existing test uses a writer that accepts fewer bytes than offered, is interrupted, or needs flushing.",
 ["src/client/conn/sync.rs","src/client/conn/tokio.rs","src/client/queue.rs","src/ircmsg/codec.rs"],
 [("flush_partial / flush_partial_tokio","src/client/conn/sync.rs, src/client/conn/tokio.rs"),("Queue FIFO and push-back on rate limit","src/client/queue.rs pop")],
 [("buf_o","serialised but unwritten bytes","src/client/conn.rs MsgIo")],["bytes seen by the simulated server"])

p("C03","Rate limit is never exceeded, and queued messages still go out on time",
 "With delay d and burst b configured, no time span of length t on one connection contains more than floor(t/d)+b+1 sent messages, including across changes of the limit (a change counts as a full backlog, never as new credit). A queued message is sent as soon as the limit allows it, even while the server stays silent or keeps talking, so a backlog drains at one message per d. Popping the queue directly obeys the same limit and reports the exact non-zero time until the next message is available.",
 ["schedules","histories","configurations"],"all arrival times of messages in the queue, server traffic patterns, limits, limit changes and clock advances",
 "Tests never advance a clock; the only queue tests pop without time passing.",
 ["src/client/queue.rs","src/client/conn/sync.rs","src/client/conn/tokio.rs","src/client/conn/time.rs"],
 [("Queue::pop time accounting","src/client/queue.rs"),("queue-derived read deadline waking the run loop","src/client/conn/time.rs")],
 [("timepoint","virtual time up to which sending is paid for","src/client/queue.rs")],["simulated time of each write"])

p("C04","Every message reaches each live handler once; results name exactly who acted",
 "Each received message is given exactly once to every handler registered when it arrives and to no finished or cancelled handler. Running the client returns precisely when at least one handler yielded or finished on a message and names exactly those handlers, and no two live handlers share an id. Values a handler sends arrive once and in order at its own receiver, and a handler that finishes is destroyed, closing its channel.",
 ["histories","schedules","configurations"],"all interleavings of adding handlers, messages, yields, finishes, receiver drops and resets, for blocking and async clients and all channel kinds",
 "Existing tests run one or two handlers to completion; id reuse, finishing in the middle of the list and closed receivers are not exercised.",
 ["src/client/handler.rs","src/client/logic.rs","src/client/handler/channel.rs","src/client/handlers.rs","src/client/conn/sync.rs","src/client/conn/tokio.rs"],
 [("Handlers::add/handle/last_run_results","src/client/handler.rs"),("SenderRef yield flag","src/client/handler/channel.rs")],
 [("handlers/finished/yielded","live handlers and reusable ids","src/client/handler.rs")],["return value of run()","handler channels"])

p("C05","Registration with a compliant server completes and records what it said",
 "Against any server that follows IRCv3 connection registration, the registration handler presents the configured password, nickname, username and realname, negotiates, sends CAP END exactly once, and reports success when the message of the day ends or is missing, whatever the timing, segmentation, PINGs, capability-list splitting and nickname collisions on the way. The state it saves (nickname, account, capabilities with values and enabled flags, ISUPPORT tokens, server name and version, source length) equals what the server announced, and so do the limits, mode types, status prefixes and SASL mechanisms read from it. If the server refuses (bad password, ban, redirect, error numeric) it reports the matching error and never success.",
 ["inputs","schedules","fault_sequences","configurations"],"all compliant server behaviours, option sets, delays and segmentations",
 "Two scripted transcripts exist; no PING, split LS, collisions, failure numerics or timing variation.",
 ["src/client/register.rs","src/client/register/handler.rs","src/client/register/defaults.rs","src/client/cap.rs","src/names/types.rs","src/names/isupport.rs","src/state/mode.rs","src/util/flatmap.rs"],
 [("registration state machine","src/client/register/handler.rs"),("Registration::save","src/client/register/handler.rs")],
 [("HandlerState","negotiation phase","src/client/register/handler.rs")],["registration channel value","ClientState after completion","server-side transcript"])

p("C06","Required authentication is never bypassed",
 "When authenticators are configured and failure is not allowed, registration never reports success and never completes capability negotiation (CAP END) unless the server confirmed a login that was not revoked before it welcomed the client; otherwise it reports a failure. When failure is allowed, or no authenticator is configured, a missing or failing SASL exchange alone never makes registration fail.",
 ["fault_sequences","inputs","configurations"],"all server behaviours including missing, late, refusing, lying or early-welcoming servers",
 "The tests only cover a successful PLAIN-style exchange.",
 ["src/client/register.rs","src/client/register/handler.rs","src/client/register/defaults.rs","src/client/auth/handler.rs"],
 [("needs_auth checks at CapEnd and welcome","src/client/register/handler.rs"),("Options::auths","src/client/register/defaults.rs")],None,["registration channel value","messages sent"])

p("C07","SASL tries mechanisms in order and sends exactly the right credentials",
 "During authentication the client attempts the configured mechanisms in order, each at most once and only if the server offers it, moving to the next one when the server rejects one. For each attempt the base64 payload, split into chunks of at most 400 bytes with the required terminator, decodes to exactly that mechanism's response to the decoded server challenge, however challenges are chunked. Credentials are sent only after the server asked for them, and never for a mechanism other than the one in progress.",
 ["inputs","fault_sequences","configurations"],"all mechanism lists, credential lengths (including multiples of 300/400), server mechanism lists, chunked challenges, rejections at any step",
 "Only one short PLAIN exchange is tested.",
 ["src/client/auth.rs","src/client/auth/handler.rs","src/client/auth/sasl/password.rs","src/client/auth/sasl/external.rs","src/string/base64.rs"],
 [("SASL Handler","src/client/auth/handler.rs"),("ChunkEncoder/ChunkDecoder","src/string/base64.rs")],None,["AUTHENTICATE lines seen by the server"])

p("C08","Read and write time limits fire on time, never early, never lose data",
 "With a read limit r and nothing queued, a wait for a message ends in a reported timeout r after it began, even if single bytes keep trickling in, and never earlier; with no read limit no read timeout is ever reported. With a write limit w, a connection that accepts no data makes the client fail with a timeout error within w instead of hanging, and a write that keeps making progress is not failed early. The timeout callback decides whether to continue, and continuing loses no received bytes.",
 ["schedules","fault_sequences","configurations"],"all stall points and trickle patterns, limits, queue states, callback decisions, connection swaps, on blocking and async connections",
 "No test involves a stalled or slow connection.",
 ["src/client/conn/time.rs","src/client/conn/sync.rs","src/client/conn/tokio.rs","src/client.rs"],
 [("TimeLimitedSync/TimeLimitedTokio/timed_io","src/client/conn/time.rs")],
 [("TimeLimits","configured limits and whether the socket needs updating","src/client/conn/time.rs")],["simulated time at which run() returns"])

p("C09","Oneshot channel hands over its value exactly once under any interleaving",
 "For any number of sender clones and any interleaving of sends, receives, peeks and drops across threads, at most one send succeeds, a value whose send succeeded is either received or dropped exactly once, a failed send returns its value, and a receive that begins after a successful send completes gets that value. No execution reads freed or uninitialised memory, races, frees twice, leaks or deadlocks.",
 ["schedules"],"all thread interleavings and weak-memory behaviours",
 "Tests run a handful of OS-scheduled threads once.",
 ["src/client/handler/channel/oneshot.rs"],[("shared counted state with a Once-guarded slot","src/client/handler/channel/oneshot.rs")],None,["send/recv results, drop counts, simulator UB detection"])

p("C10","A parked receiver wakes when, and only when, it should",
 "A thread blocked on a parker or in a blocking receive (one thread per parker at a time) returns only after an unpark, a send, or the drop of the last unparker or sender, and always returns after one of these, whatever the interleaving, stale unpark tokens and spurious wake-ups. A blocking receive whose parker nobody unparks explicitly returns the value whenever some send on its channel succeeded before the last sender went away. An unpark that precedes parking makes the next park return at once.",
 ["schedules","fault_sequences"],"all interleavings of park, unpark, send, clone and drop, plus spurious thread wake-ups and stale tokens",
 "Tests run one interleaving and never inject spurious wake-ups.",
 ["src/client/handler/channel/parker.rs","src/client/handler/channel/oneshot.rs"],[("shared pointer to the parked thread","src/client/handler/channel/parker.rs")],None,["return of park/recv, deadlock detection, simulator UB detection"])

p("C11","Byte strings shared across threads stay immutable, race-free and freed once",
 "Cloning, comparing, converting, splitting and dropping shared byte strings and messages concurrently from several threads never changes the observed contents, never races, and frees each underlying buffer exactly once after its last owner is gone. Turning a string back into owned bytes yields its exact contents and never steals a buffer that another owner still uses.",
 ["schedules"],"all thread interleavings and weak-memory behaviours of string operations",
 "No test shares strings between threads.",
 ["src/util/thinarc.rs","src/string/bytes.rs","src/util/ownedslice.rs","src/ircmsg/server.rs"],[("thin reference-counted buffer","src/util/thinarc.rs")],None,["observed contents, simulator race/UAF/leak detection"])

p("C12","A reset client behaves like a new one on its next connection",
 "After a reset, with or without a new connection, everything the client sends, delivers, reports and stores is identical to that of a freshly created client with the same configuration, whatever state the old connection was left in: half-received line, unsent queue, rate-limit debt, live handlers, labels, shared state. Configuration (rate limit, time limits, adjuster, timeout callback) survives the reset and applies to the new connection.",
 ["histories","crash_points","configurations"],"all points at which the old connection fails or is abandoned, and all subsequent histories",
 "Reset is not tested at all.",
 ["src/client.rs","src/client/logic.rs","src/client/queue.rs","src/client/handler.rs","src/client/conn.rs"],[("Client::reset / reset_with_conn","src/client.rs"),("ClientLogic::reset, Queue::reset, Handlers::cancel, ClientState::clear","src/client/logic.rs")],None,["differential run against a fresh client"])

p("C13","No server behaviour can crash, corrupt, hang or bloat the client",
 "For any byte stream from the server, with any set of the library's own handlers registered, the client never panics, never corrupts memory and never spins without consuming input: each call ends in a result, an error or a wait. The typed parsers and string operations for message contents are total in the same way, and never present bytes as text that are not valid UTF-8. Everything the client sends in response stays a well-formed line with a command its handlers are for. Memory retained for unfinished input stays below a fixed bound, and once the connection is closed the client reports an error after a bounded number of steps.",
 ["inputs","fault_sequences"],"all server byte streams, mutated protocol transcripts, segmentations and disconnects",
 "Tests only feed well-formed transcripts.",
 ["src/ircmsg/codec.rs","src/client/register/handler.rs","src/client/cap.rs","src/client/auth/handler.rs","src/client/handlers/track.rs","src/util/flatmap.rs","src/util/ownedslice.rs","src/string/tf/escape.rs","src/string/splitter.rs","src/string/bytes.rs"],
 [("length limits in read_msg!","src/ircmsg/codec.rs"),("total parsers","src/ircmsg"),("FlatMap edit guard","src/util/flatmap.rs")],None,["panics, guarded allocator, step counts"])

p("C14","Each PING gets exactly one matching PONG; auto-replies never feed loops",
 "While an automatic responder is active (during and after registration), each PING from the server is answered with exactly one PONG carrying the PING's last argument unchanged, in order, and nothing else is answered so. CTCP VERSION and SOURCE queries are answered once with a notice to the asker only when they arrive as a PRIVMSG with a source and an answer is configured; notices and other messages are never answered. The latency probe reports exactly the simulated time between creation and its own matching PONG.",
 ["inputs","schedules","histories"],"all message sequences, PING payloads, timings, and two auto-replying clients connected through a relay",
 "A single PING is tested; CTCP replies and timing are not.",
 ["src/client/handlers/ping.rs","src/client/handlers/autoreply.rs","src/ircmsg/ctcp.rs","src/names/cmd.rs"],[("pong()","src/client/handlers/ping.rs"),("CtcpVersion","src/client/handlers/autoreply.rs")],None,["server-side transcript","ping channel"])

p("C15","Messages survive the wire: what one side writes, the other reads back equal",
 "Any client or server message that can be built with the safe API and fits the size limits, written by one side and read by the other through any of the stream readers or framed codecs over an arbitrarily segmented and delayed link, arrives as an equal message, in order, with none lost or added. The framed codecs and the stream readers agree on every byte stream, an over-long line is an error that does not depend on segmentation, and an accepted message is what its line says (tags, source, command and arguments). A message is displayed as the text that is written, and the space it says is left, in bytes of its line and in arguments, is never more than there is.",
 ["inputs","schedules"],"all constructible messages, all segmentations, blocking/async/framed readers on either side",
 "Tests round-trip a few fixed strings as whole buffers; tag escaping, repeated edits and framed decoding of split input are not covered.",
 ["src/ircmsg/codec.rs","src/ircmsg/args.rs","src/ircmsg/tags.rs","src/ircmsg/source.rs","src/string/tf/escape.rs","src/string/splitter.rs","src/util/flatmap.rs"],
 [("write_to/parse","src/ircmsg/codec.rs"),("Decoder/Encoder impls","src/ircmsg/codec.rs tokio_codec")],None,["messages decoded by the simulated peer"])

p("C16","The client's idea of its own source always matches the server's",
 "With source tracking active after registration, after every processed message the recorded nickname, username and host equal those the server last announced for this client, regardless of other users' changes, and the assumed source length is the length of that source, counting a tilde in front of a username that has none because servers may leave it out (or a bound from the announced limits while parts are unknown). Messages about other users or malformed messages change nothing, and tracking never stops while the connection is registered.",
 ["histories","inputs"],"all sequences of nick/host changes, USERHOST replies and other users' traffic",
 "No test covers tracking.",
 ["src/client/handlers/track.rs","src/client/logic.rs","src/client/register/handler.rs","src/ircmsg/source.rs"],[("TrackClientSource","src/client/handlers/track.rs"),("calc_source_len","src/client/logic.rs")],None,["ClientState after each message"])

p("C17","Nickname fallback offers valid fresh nicks in order and gives up cleanly",
 "During registration, when the server rejects a nickname the client offers the next one: the configured nicknames in order, then the generated ones, never repeating one within a strategy that promises distinct names, and every one a valid nickname. When all options are exhausted registration reports that no nicknames remain instead of hanging or panicking, and after success the recorded nickname is the one the server accepted.",
 ["fault_sequences","inputs","configurations"],"all rejection patterns (in use, invalid, collision), nick lists, suffix strategies, seeds and clock values",
 "Tests check two generators without a server.",
 ["src/client/nick.rs","src/client/nick/suffix.rs","src/client/register/handler.rs"],[("NickGen/Suffix","src/client/nick"),("next_nick","src/client/register/handler.rs")],None,["NICK lines seen by the server"])

p("C18","Capability negotiation asks for what is needed, offered, and nothing else",
 "During registration the client requests exactly the capabilities its configuration selects from those the server advertised (plus sasl when it will authenticate), each once, in requests whose replies fit in one line, and never sts. If a required capability is missing or refused it reports exactly which ones and does not register; otherwise negotiation finishes once all requests are acknowledged, in any order and split. The recorded capability map reflects every advertisement, acknowledgement, addition and removal received.",
 ["inputs","schedules","fault_sequences","configurations"],"all advertised sets, values, splits, ACK/NAK/NEW/DEL sequences and configurations",
 "One single-line LS is tested.",
 ["src/client/cap.rs","src/client/register/handler.rs","src/client/register/defaults.rs","src/names/types.rs","src/util/flatmap.rs"],[("cap::req","src/client/cap.rs"),("HandlerState::ack","src/client/register/handler.rs"),("NameMap/FlatMap","src/names/types.rs, src/util/flatmap.rs")],None,["CAP lines seen by the server","saved Caps"])

p("C19","Queue edits, labels and adjusters apply exactly and only to queued messages",
 "Every message pushed with a label carries exactly the returned label, labels from one labeler are distinct within a connection, and without a labeler messages are unchanged. When a server message arrives, the adjuster sees it before any handler does and rewrites or removes exactly the messages still queued, never one already sent, keeping the order of the rest. Clearing an edit guard discards exactly the messages added through it.",
 ["histories","schedules"],"all interleavings of pushes, labelled pushes, clears, pops under rate limit, and adjusting server messages",
 "No test combines labels, adjusters and time.",
 ["src/client/queue.rs","src/client/logic.rs","src/ircmsg/tags.rs","src/util/flatmap.rs"],[("QueueEditGuard, Adjuster, MultiAdjuster","src/client/queue.rs")],None,["bytes seen by the server"])

p("C20","Secrets read from faulty sources are complete and exact, or an error",
 "Reading a secret from any stream, file or process-like source with short reads, interruptions and early end appends exactly the bytes up to the requested limit to what was loaded before, or fails and leaves the buffer's contents as they were; it never returns a truncated, padded or shifted secret, never reads past what it was asked for, and never writes outside its buffer or hands the source memory that was not initialised.",
 ["fault_sequences","inputs"],"all secret lengths, capacities and read fault sequences",
 "No test reads a secret from a stream that short-reads or is interrupted.",
 ["src/string/secretbuf.rs","src/util/ownedslice.rs","src/client/auth/secret.rs"],[("SecretBuf::read_from and growth","src/string/secretbuf.rs"),("OwnedSlice","src/util/ownedslice.rs")],None,["SecretBuf contents, guarded allocator"])

p("C21","Secrets are never printed, and their memory is wiped",
 "A string marked secret stays secret through cloning, taking ownership, splitting, parsing, converting between string types, case mapping, trimming, tag escaping, UTF-8 repair and base64 encoding, so nothing the library prints (Display, Debug, error texts, logged messages) contains its contents, at any point of a session and whatever the server does. When the last reference to an owning secret string or a secret buffer is lost, or a secret buffer grows, the memory that held it is zeroed before it is released, and never while something still refers to it; no memory the client frees still holds a SASL password that was given to it as a secret, and taking ownership of a secret string, marking an unshared string secret, setting the server password, viewing, cloning or converting a secret buffer and encoding a secret in AUTHENTICATE chunks leave no unwiped copy behind.",
 ["histories","inputs","fault_sequences"],"all histories of operations on secret strings and buffers, all registration sessions with secret passwords, ended at any point",
 "Tests check the flag on two clones; nothing looks at logs, errors or freed memory.",
 ["src/string/bytes.rs","src/string/secretbuf.rs","src/string/splitter.rs","src/string/subtypes/macros.rs","src/string/base64.rs","src/string/tf/escape.rs","src/util/ownedslice.rs","src/client/auth/secret.rs","src/client/auth/sasl/password.rs","src/client/conn/sync.rs","src/client/conn/tokio.rs","src/client/queue.rs"],
 [("Bytes::secret, Buffer drop","src/string/bytes.rs"),("SecretBuf","src/string/secretbuf.rs"),("message logging","src/client/conn")],None,["captured log output and formatted values","guarding allocator's view of freed blocks"])

p("C22","Built-in TCP and TLS connections reach the named server, privately if asked to",
 "Connecting to a server address, blocking or async, tries only that host's addresses and the given port (or 6697 with TLS and 6667 without), and uses TLS exactly if the address asks for it and the caller did not decline; the TLS configuration is then asked for exactly once. A TLS connection succeeds only with a server that proves, by the rules of the TLS version in use, that it holds the key of its certificate, and whose certificate is valid at the current time for that host and issued by an authority of the configured trust (the system's, the given files', both, or any certificate if verification is turned off); otherwise, and if a trust file or client certificate cannot be read, an error is returned. The configured client certificate is presented in every trust mode. No line ever crosses the network unencrypted on a TLS connection. Lines arrive unchanged in both directions; read and write time limits each apply to their own direction, also with TLS; the end of the connection is reported; shutting down affects exactly the halves asked for; no socket outlives a failed or abandoned attempt or a dropped connection.",
 ["inputs","configurations","fault_sequences","schedules"],"all addresses, resolver results, listeners, certificates, trust settings, clock values, server behaviours and network faults, at every point of connection set-up and use",
 "No test opens a connection; certificates, resolver results, refusals, stalls and resets at arbitrary points are out of unit tests' reach.",
 ["src/client/conn.rs","src/client/conn/sync.rs","src/client/conn/tokio.rs","src/client/conn/time.rs","src/client/tls.rs"],
 [("ServerAddr::connect, connect_no_tls, Stream","src/client/conn/sync.rs"),("ServerAddr::connect_tokio, connect_tokio_no_tls, StreamTokio","src/client/conn/tokio.rs"),("TlsConfigOptions::build, Trust, NoVerifier","src/client/tls.rs"),("default ports","src/client/conn.rs port_num")],None,["connection attempts and bytes on simulated sockets","the simulated TLS server's view: SNI, client certificates, plaintext","results of connect and run"])

# not applicable
p("C23","What is saved survives a restart, and a configuration means what it says",
 "A message a client received or queued, and the addresses, TLS options and nickname generators it was configured with, can be written out with serde and read back after a crash and restart: the restored value equals the original, is sent as the same bytes and behaves the same. Registration options read from a configuration (passwords from any secret source, nicknames, capabilities, authenticators, forbidden password methods) lead to exactly the exchange they describe, with defaults for what is left out; passwords stay marked as secret, and a secret that cannot be loaded makes the configuration unusable rather than empty. Torn or damaged data is refused or read as some other valid value: it never yields a string its type forbids, an unusable numeric, a panic, or a line that is more than one message.",
 ["crash_points","fault_sequences","inputs","configurations"],"all messages, options, crash points, torn and decayed records and server behaviours",
 "Two tests deserialise one password.",
 ["src/string/serde.rs","src/string/subtypes/macros.rs","src/ircmsg/args.rs","src/ircmsg/tags.rs","src/ircmsg/numeric.rs","src/ircmsg/source.rs","src/client/auth/secret.rs","src/client/auth/sasl/password.rs","src/client/register/defaults.rs","src/client/nick.rs","src/client/conn.rs","src/client/tls.rs"],
 [("serde impls","src/string/serde.rs"),("Args::deserialize","src/ircmsg/args.rs"),("Secret::deserialize","src/client/auth/secret.rs")],None,["restored values","messages sent from restored values","registration transcript"])

p("C24","A channel view kept with the library's mode and name types is the server's",
 "An application that follows a channel with the library's types (mode types and status prefixes read from ISUPPORT, mode letters and sets, case mapping of nicknames and channel names) has, after every message it processed, the server's own view: each mode change takes exactly the arguments the announced types give it, sets of modes contain what was set and not unset, report changes, combine, compare, iterate and print as sets of letters do, status prefixes in name lists stand for their modes, and two names are the same member or channel exactly when the announced case mapping (ascii, rfc1459 or rfc1459-strict) says so. A mode change computed from two sets and sent makes the server's modes the ones asked for.",
 ["histories","inputs","configurations"],"all announced mode types, prefixes and case mappings, all channel histories, letter cases and segmentations",
 "Tests parse a few mode strings and compare a few sets; no history is followed.",
 ["src/state/mode.rs","src/names/isupport.rs","src/string/tf/casemap.rs","src/string/tf.rs","src/names/types.rs"],
 [("ModeTypes, StatusModes, ModeSet","src/state/mode.rs"),("IrcCasemap","src/string/tf/casemap.rs")],None,["the application's view after each message","messages sent","server's channel state"])

p("C90","String newtypes accept exactly the bytes their documentation allows",
 "Each validated string type accepts a byte string if and only if it satisfies the documented restriction, and every conversion between string types preserves contents.",
 ["inputs"],"all byte strings","Tests cover a few samples.",["src/string/subtypes.rs","src/string/subtypes/macros.rs"],[("const validity checks","src/string/subtypes.rs")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
