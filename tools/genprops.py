#!/usr/bin/env python3
# Generates /verif/properties.jsonl (source of truth is this table).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
NT="The repository has no test at all outside package sdp, so nothing samples this; "

p("T01","Inbound messages are framed exactly, however the bytes are split",
 "A client connection that receives a byte stream made of interleaved binary frames (any channel, payload length 0 to 65535) and RTSP responses (with or without a body, up to 64 KiB in all) hands the application exactly those messages, one per data event, complete, byte-identical and in order, however the transport splits or coalesces the bytes. The same holds for any stream protocol plugged into the connection (fixed header plus length, end marker, trailing content, or no framing decision). Every event carries its own connection and a buffer that later traffic never changes.",
 ["inputs","schedules"],"every message sequence, every segmentation of its bytes into reads, every supported stream protocol",
 NT+"and a test would fix one segmentation while the guarantee is over all of them.",
 ["tcpnetwork/tcpnetwork.go","rtpstreamprotocol.go","tcpnetwork/tcpinterface.go"],
 [("unpack: header, body or end marker, content","tcpnetwork/tcpnetwork.go unpack"),("frame length and end-marker decision","rtpstreamprotocol.go UnserializeHeader/GetContentLength")],
 ["data events of the event handler given to the connection"])
p("T02","Connection lifecycle events are exact at every cut point",
 "Every running connection reports exactly one connected event, before any data, and exactly one disconnected event, after all data, whichever side ends it and at whatever byte the stream is cut or fails. Every message completely received before a peer-side end is delivered and a message cut short never is. When disconnection is reported the connection's status says disconnected and its transport has been closed, and while connected the status says connected.",
 ["crash_points","fault_sequences","schedules"],"every byte offset at which the stream may end, read or write errors, and a local close at any moment",
 NT+"and the number of cut points times event interleavings is beyond example tests.",
 ["tcpnetwork/tcpnetwork.go"],
 [("run/quit sequence of the main routine","tcpnetwork/tcpnetwork.go routineMain"),("status transitions","tcpnetwork/tcpnetwork.go close/GetStatus")],
 ["events and status of the connection","Close calls on the transport"])
p("T03","Outbound messages reach the peer whole, once each and in order",
 "Non-empty messages handed to an open connection by any number of goroutines reach the peer complete, exactly once, never intermixed, each preceded by the header its protocol defines, and each sender's messages in the order sent, starting with a message sent immediately after the connection is started. Everything accepted before a local close is transmitted before the transport is closed when the peer keeps reading; sending on an ended connection neither panics nor writes; where the protocol adds no header, an empty message sends nothing and ends nothing. When a copy is requested, later changes to the caller's buffer do not alter what is sent.",
 ["schedules","histories","inputs"],"every interleaving of senders, closers and the peer's reading speed; every message size",
 NT+"and loss or intermixing depends on goroutine interleavings.",
 ["tcpnetwork/tcpnetwork.go"],
 [("single writer routine fed by a queue","tcpnetwork/tcpnetwork.go routineSend/sendRaw"),("close marker queued behind pending messages","tcpnetwork/tcpnetwork.go Close")],
 ["byte stream seen by the peer"])
p("R01","A play attempt follows the RTSP handshake order",
 "A play attempt sends DESCRIBE (repeated at most once, only after a 401 when the URL carries a username and password), then one SETUP per media of the session description in its order, then PLAY, and sends each request only after the previous one was answered. The sequence number grows by exactly one from each request on a session to the next. Any status other than 200 (apart from that one 401), an undecodable description or one without media, an unusable answer, or a missing answer ends the attempt with no further handshake request.",
 ["inputs","histories","fault_sequences"],"every session description, every server status at every step, every response timing and segmentation",
 NT+"and the sequence depends on all server answers so far.",
 ["rtspclient.go","rtsprequest.go"],
 [("handshake driver","rtspclient.go sendRequest"),("sequence counter","rtsprequest.go sendRequst")],
 ["requests as received by a scripted server"])
p("R02","The reported outcome of a play attempt is the truth",
 "Play, SetConnection and PlayUseWebsocket return nil if and only if DESCRIBE, every SETUP and PLAY were answered with 200 and the description was usable, and otherwise return a non-nil error. Each attempt that got a connection raises exactly one success or request-error event, matching the returned value and raised before it returns; an attempt that cannot connect returns an error and raises one disconnected event and no request event; playing a session that is connected is refused and leaves the running stream untouched. Every event names its own session.",
 ["inputs","fault_sequences"],"every server behaviour: status, malformed or missing answer, disconnect at any step",
 NT+"and truthfulness must hold for every failing step.",
 ["rtspclient.go"],
 [("deferred outcome event","rtspclient.go sendRequest"),("error propagation","rtspclient.go Play/PlayUseWebsocket/SetConnection")],
 ["return values and session events"])
p("R03","Every request on the wire is well formed and correctly addressed",
 "Every request is one request line 'METHOD url RTSP/1.0', then 'Name: value' header lines, each ended by CRLF, then one empty line, with a CSeq; SETUP goes to the media's control URL (used as is when it is an rtsp URL, otherwise appended to the request URL after a slash) and asks for interleaved TCP channels 2i-(2i+1) for media i, while all other requests go to the request URL. Once the server has issued a session id, SETUP, PLAY, PAUSE and TEARDOWN carry exactly the latest issued id, without parameters such as timeout. PLAY with a non-zero start time carries 'Range: npt=<start>.0-', with a speed other than 1 carries Speed with that number, and neither header otherwise.",
 ["inputs","histories"],"every URL, control attribute, session id, start time, speed and order of user requests",
 NT+"and the text depends on server-chosen values.",
 ["rtsprequest.go","rtspclient.go"],
 [("request builders","rtsprequest.go SendDescribe/SendTcpSetup/SendPlay/SendPause/SendTeardown"),("track URL","rtspclient.go sendRequest")],
 ["requests as received by a scripted server"])
p("R04","Authentication answers the server's challenge correctly, and only that",
 "When a DESCRIBE is answered 401 with a Basic or Digest challenge and the URL carries a username and password, the retried DESCRIBE and every later request on that connection (SETUP, PLAY, PAUSE, TEARDOWN included) carry exactly one Authorization header with the correct answer to that challenge for that method; Digest (RFC 2069 form) is used when both are offered. Challenges it has no answer to, of another scheme or algorithm than MD5, are not answered. The realm and nonce are taken verbatim from the challenge, whatever characters and parameter order it uses, and user name and password may have any characters (a line break in them never becomes one in a request). Without a challenge no Authorization is ever sent, and Digest never puts the password on the wire.",
 ["inputs","histories"],"all credentials, realms and nonces (spaces, commas, colons, equals signs), challenge layouts and request methods",
 NT+"and the answer is a function of server- and user-chosen strings.",
 ["authenticator.go","rtspparser.go","rtsprequest.go","rtspclient.go"],
 [("challenge parsing","rtspparser.go parsingAuthenticate"),("Authorization header","authenticator.go createAuthenticatorString")],
 ["Authorization headers received by a scripted server, recomputed independently"])
p("R05","The URL decides where to connect; credentials never enter a request URL",
 "Play connects to the URL's host and port, with port 554 when none is given, for names, IPv4 and bracketed IPv6 addresses; an unparsable URL is an error and nothing is dialled. The request URL on the wire is the given URL with its path and query preserved (a space in the query written as %20) and user information removed, and percent-encoded user information is decoded for authentication. Credentials of one URL are never used for another.",
 ["inputs","histories"],"every URL shape and every sequence of URLs played on one session",
 NT+"and URL shapes are unbounded.",
 ["rtspclient.go"],
 [("URL handling","rtspclient.go ParsingURL/Play")],
 ["listener that is connected to, request line, Authorization header, error text"])
p("R06","Response interpretation does not depend on header layout",
 "The status, session id, body and challenge taken from an RTSP response depend only on its content: header order, header name case, spaces or tabs around the value, additional headers (with or without colons in their values), reason phrase and upper or lower case protocol name make no difference. The body is exactly the Content-Length bytes after the empty line, whatever they contain, and the next message starts right after it. A response without an empty line, or too short to hold a status, is an error and not a success.",
 ["inputs"],"every header order, case and spacing, extra header, body content",
 NT+"and layouts are unbounded.",
 ["rtspparser.go","rtpstreamprotocol.go"],
 [("header scan","rtspparser.go ParserRtspResponse"),("body length","rtpstreamprotocol.go GetContentLength")],
 ["parsed status, content length reported to the framer, follow-up requests of the client"])
p("L01","Every public call completes in bounded time whatever the server does",
 "Play, SetConnection, WaitRtspResponse and Close, and Send and Close of a connection, return within 10 seconds after the server's last complete response (or, with none, after the call), whether the server is silent, stops at any byte, trickles bytes, sends garbage, refuses, stops reading or disconnects. A play attempt whose answer never comes ends with an error and its connection is closed and reported disconnected. PlayUseWebsocket ends within a minute if its upgrade is not answered. Closing a session ends its connection and reports disconnection within 15 seconds even if the server never answers or never reads.",
 ["fault_sequences","crash_points","schedules"],"a server fault at every step and every byte of every response",
 NT+"and hangs need specific faults at specific points.",
 ["rtspclient.go","tcpnetwork/tcpnetwork.go"],
 [("response timeout","rtspclient.go WaitRtspResponse"),("close","rtspclient.go Close; tcpnetwork/tcpnetwork.go Close")],
 ["return of the calls and the disconnected event, on a virtual clock"])
p("L02","Unexpected responses never stall media or notifications",
 "RTSP responses that nobody is waiting for (unsolicited, duplicated, late or unparsable, any number, at any time) neither stop nor reorder nor alter the media delivered to the application, and disconnection is still reported. A response received while no request was outstanding is never taken as the answer to a later request. The same goes for bytes that begin no message, such as a request of the server, when they arrive on their own.",
 ["schedules","histories","inputs"],"every placement and number of extra responses relative to media and requests",
 NT+"and a stall needs an extra response at the wrong time.",
 ["rtspclient.go"],
 [("hand-over from the reading routine to the waiting caller","rtspclient.go parsingRtsp/WaitRtspResponse")],
 ["delivered media, disconnected event, result of the next request"])
p("L03","A session can be played again, and nothing carries over",
 "After disconnection is reported, including from inside that event handler, the same session can be played again and behaves like a new session: same requests (apart from the sequence number), same outcome, same media. Requests, waiting for answers and closing while the session is not connected neither panic nor hang nor change that. No credentials, authorization, session id, media description, channel assignment, half-received media or pending response of an earlier connection has any effect on a later one, and late events of the earlier connection do not disturb it.",
 ["histories","schedules"],"every sequence of connections on one session, ended in any way and at any point",
 NT+"and carry-over needs specific histories.",
 ["rtspclient.go"],
 [("per-connection reset","rtspclient.go HandleConn/sendRequest/SetConnection")],
 ["transcript, outcome and media of the replay compared with those of a fresh session"])
p("L04","A finished session leaves nothing running or open",
 "Once disconnection has been reported and the application's calls have returned, no goroutine started by the library remains and the network connection has been closed, whichever side ended it, at whatever point, and however many requests or messages were pending.",
 ["schedules","fault_sequences"],"every way and moment of ending a session",
 NT+"and leaks are invisible to functional tests.",
 ["tcpnetwork/tcpnetwork.go","rtspclient.go","websocketconn.go"],
 [("quit of the send, main and event routines","tcpnetwork/tcpnetwork.go routineMain/routineSend; rtspclient.go HandleConn")],
 ["goroutine dump and transport close flag at quiescence"])
p("H01","No server input can crash the client process",
 "Whatever bytes a server sends, at any stage and for any codec, over TCP or WebSocket, the client process neither panics nor exits: malformed input leads to an error, an ignored message or a disconnection. The same holds for an application that gave no data or no event handler. The exported response and RTP parsers likewise never panic on any input.",
 ["inputs","fault_sequences"],"every byte stream from the server",
 NT+"and the input space is unbounded.",
 ["rtspclient.go","rtspparser.go","rtpparser.go","h264rtpparser.go","hevcrtpparser.go","simplertpparser.go","markrtpparser.go","sdpparser.go","sdp/decoder.go","websocketconn.go"],
 [("length checks before slicing","all parsers"),("decode errors are returned","sdpparser.go parsingSDPLine")],
 ["exit status and panic output of the process"])
p("C01","Playing, streaming, controlling and closing is free of data races",
 "When one goroutine plays, controls, closes and replays a session while its connection delivers responses, media and disconnection, and when several goroutines send on, query and close one connection, no two goroutines access the same memory without synchronisation. Sessions used by different goroutines share nothing.",
 ["schedules"],"every interleaving of the library's goroutines with the application's",
 NT+"and the sdp tests are single-threaded.",
 ["rtspclient.go","tcpnetwork/tcpnetwork.go"],
 [("channels and locks between API, event and connection routines","rtspclient.go, tcpnetwork/tcpnetwork.go")],
 ["Go race detector reports whose stacks include library frames"])
p("D01","H.264 NAL units are delivered exactly, once and in order",
 "For an H.264 track every NAL unit sent as a single NAL unit packet, as FU-A fragments (two or more, any split, the first possibly an FU-B) or inside an aggregation packet (STAP-A, STAP-B, MTAP16 or MTAP24) reaches the data handler exactly once, byte-identical including its NAL header, one NAL unit per call and in transmission order, for NAL units up to 8 MiB.",
 ["inputs","histories"],"every sequence of NAL units, sizes, header bits and packetizations",
 NT+"and packetizations are combinatorial.",
 ["h264rtpparser.go","rtpparser.go"],
 [("header rebuild and reassembly","h264rtpparser.go SplitHeader; rtpparser.go pushData"),("aggregate splitting","h264rtpparser.go ParsingRtp")],
 ["buffers passed to the data handler"])
p("D02","H.265 NAL units are delivered exactly, once and in order",
 "For an H.265/HEVC track every NAL unit sent as a single NAL unit packet, as fragmentation units (two or more, any split) or inside an aggregation packet reaches the data handler exactly once, byte-identical including its two header bytes, one NAL unit per call and in transmission order, for NAL units up to 8 MiB.",
 ["inputs","histories"],"every sequence of NAL units, sizes, header bits and packetizations (no DONL)",
 NT+"and packetizations are combinatorial.",
 ["hevcrtpparser.go","rtpparser.go"],
 [("header rebuild and reassembly","hevcrtpparser.go SplitHeader; rtpparser.go pushData"),("aggregate splitting","hevcrtpparser.go ParsingRtp")],
 ["buffers passed to the data handler"])
p("D03","Other codecs: packets pass through whole; marked frames are joined",
 "For a track of any other codec every RTP packet with a non-empty payload leads to exactly one call with that payload, in order. For codec 'bbw' (a codec's name counts in any letter case) the payloads of consecutive packets are joined into one frame delivered when the packet with the marker bit arrives.",
 ["inputs","histories"],"every codec name, payload and marker sequence",
 NT+"and sequences are unbounded.",
 ["simplertpparser.go","markrtpparser.go","rtpparser.go"],
 [("pass-through and marker framing","simplertpparser.go, markrtpparser.go, rtpparser.go")],
 ["buffers passed to the data handler"])
p("D04","Media is routed to its own track and only there",
 "Frames on interleaved channel 2i are delivered as media i of the session description, labelled with channel 2i and the right session, and decoded with that media's codec, also where several medias have the same control URL or none; frames on odd (RTCP) or never set up channels are not delivered. Any interleaving of several tracks' packets, in-progress fragments included, delivers on each channel exactly what that track alone would have delivered.",
 ["inputs","schedules"],"every set of tracks and codecs and every interleaving of their packets with RTCP and stray channels",
 NT+"and cross-talk needs specific interleavings.",
 ["rtspclient.go","rtpparser.go"],
 [("channel table","rtspclient.go parsingRtp/sendRequest")],
 ["channel number, session and data of each delivery"])
p("D05","RTP header options never leak into the media",
 "Payload delivered to the application is the same whether or not a packet carries contributing sources (0 to 15), a header extension of any length, or padding, and whatever its sequence number, timestamp, source id and payload type are. Packets whose RTP, fragment or aggregation header is cut short, and packets that have no payload, are ignored without affecting the packets around them.",
 ["inputs"],"every combination of CSRC count, extension length, padding length and header values on every codec",
 NT+"and header combinations are unbounded.",
 ["rtspclient.go","rtpparser.go"],
 [("header removal before depacketization","rtpparser.go splitRtpPacket")],
 ["buffers passed to the data handler"])
p("D06","Delivered media buffers belong to the application",
 "A buffer passed to the data handler never changes afterwards because of later traffic, on any track, and writing to it changes neither later deliveries nor earlier ones.",
 ["inputs","histories","schedules"],"every later traffic and every modification by the application",
 NT+"and aliasing only shows under later traffic.",
 ["rtpparser.go","tcpnetwork/tcpnetwork.go"],
 [("copy per delivery","rtpparser.go pushData; tcpnetwork/tcpnetwork.go unpack")],
 ["checksums of retained and of scribbled-on buffers"])
p("W01","A WebSocket transport behaves like a TCP one",
 "Over WebSocket the client sends the same request bytes, in binary messages, reports the same outcome and events and delivers the same media as over TCP, however the server cuts its byte stream into binary or text messages (of any size, empty ones and several per read included). The upgrade is asked for at the given WebSocket URL, and a ping of the server is answered with its pong. When either side ends the session disconnection is reported once and the underlying connection is closed.",
 ["inputs","schedules"],"every partition of the server's byte stream into WebSocket messages and frames",
 NT+"and partitions are unbounded.",
 ["websocketconn.go","rtspclient.go"],
 [("message to stream adaption","websocketconn.go Read/Write/Close")],
 ["transcript, outcome, events and media compared with a direct connection"])
p("S01","SDP messages survive encoding and decoding",
 "Encoding a message whose fields are representable yields RFC 4566 text with the lines in RFC order, and decoding that text yields an equal message: version, origin, name, info, URI, email, phone, connection data (session and media, TTL and address count), bandwidths, all time and repeat descriptions, time zones, encryption, attributes (every value, in order per name) and medias in order. Values set through the builder methods appear in the text as RFC 4566 prescribes. Whatever was decoded, encoding it and decoding the result gives the same message, and the connection data of a section with several connection lines are those of one of them. Several email or phone lines, which RFC 4566 allows, are accepted and one of each is kept. Session ids and versions are numbers of up to 64 bits.",
 ["inputs"],"every representable message",
 "The sdp tests encode two messages and decode about six texts; round trip is a statement over all messages and field combinations.",
 ["sdp/encoder.go","sdp/fields.go","sdp/decoder.go","sdp/sdp.go"],
 [("encoder","sdp/encoder.go Append"),("field decoders","sdp/decoder.go")],
 ["encoded text against an independent reference encoder; decoded message against the original"])
p("S02","The SDP line layer is lossless and layout independent",
 "Any list of lines (single-character type, non-blank value without line breaks or surrounding white space) written out and read back is the same list; LF or CRLF line ends, blank lines, surrounding white space and a missing or present final line break make no difference. Reading into a reused session yields the same lines as reading into a fresh one.",
 ["inputs","histories"],"every line list, layout and reuse history",
 "Tests sample a handful of texts and reuse a session only on failing inputs.",
 ["sdp/sdp.go"],
 [("scanner and line decoder","sdp/sdp.go DecodeSession/Scan/Line.Decode"),("memory reuse","sdp/sdp.go getLine/DecodeSession")],
 ["decoded line lists"])
p("S03","SDP decoding is total, deterministic and independent of its input buffer",
 "Decoding any bytes, or any hand-built line list, returns a message or an error without panicking, and does so identically each time. It never modifies its input, and overwriting the input or the lines afterwards changes nothing in what was decoded.",
 ["inputs"],"every byte string and line list",
 "Tests decode about fifty files; totality is over all inputs.",
 ["sdp/sdp.go","sdp/decoder.go"],
 [("error returns instead of indexing","sdp/decoder.go"),("copying of values","sdp/sdp.go Line.Decode; sdp/decoder.go b2s users")],
 ["panics, repeated results, input and result after overwriting"])
p("S04","SDP times, intervals and time zones are converted exactly",
 "Converting an NTP second count to a time and back gives the same count, order is preserved and zero maps to the zero time; repeat intervals, active durations, offsets and time zone offsets of whole seconds, positive or negative, in plain or compact notation (d, h, m, s), mean the same duration when written and when read. Every repetition of every time description, also several of one, is read with its own interval, duration and offsets.",
 ["inputs"],"every second count up to 2^62 and every whole-second duration up to 10^5 days",
 "Tests check two NTP values and nine intervals.",
 ["sdp/fields.go","sdp/decoder.go"],
 [("conversions","sdp/fields.go TimeToNTP/NTPToTime/appendInterval; sdp/decoder.go decodeInterval")],
 ["encoded text and decoded values"])
p("S05","Media information exposed to the user matches the description",
 "After a successful play the media table holds exactly one entry per media of the description, keyed by its channel number, whose type, payload format (first listed), codec, clock rate, channel count, control URL, frame rate, dimensions and every format parameter are those of the description. Static payload types take the RFC 3551 values; others come from the rtpmap attribute; format parameters are split at semicolons with or without spaces, without stray separators, values kept verbatim. The framerate attribute goes before x-framerate.",
 ["inputs"],"every session description with any number of medias and attribute order",
 NT+"and descriptions are unbounded.",
 ["sdpparser.go","rtspclient.go"],
 [("media extraction","sdpparser.go parsingSDP/getFmtParame/getPayloadInfo")],
 ["the exported media table after play"])
p("S06","SDP sections never affect each other",
 "Lines of a media section affect only that media: appending a media section to a description leaves the decoded session-level fields and all earlier medias unchanged and adds exactly one media equal to what it decodes to on its own. Session-level lines affect no media, and for lines of the same media the relative order of different attribute names is irrelevant.",
 ["inputs"],"every combination of session part and media sections",
 "Tests check one two-media description field by field.",
 ["sdp/decoder.go"],
 [("section state","sdp/decoder.go decodeMedia/decodeSession, section switches in the field decoders")],
 ["decoded messages of composed descriptions"])
p("S07","Malformed SDP fields are rejected, never silently misread",
 "A description with a malformed field is refused with an error: non-numeric version, session id, port, time, bandwidth or interval, or one of more than 64 bits; an interval too long for a duration; wrong number of origin, connection, timing, repeat, time zone or media sub-fields or of elements in a port or address; doubled separators; TTL or address count outside 0-255, empty or not a decimal number, or a TTL on IPv6; unknown bandwidth type; attribute, bandwidth or key with a colon and no value; a repeat line without timing; an unknown line type or one that is not exactly one character; a session line inside a media section; a line without '=' or with an empty value other than the session name.",
 ["inputs"],"every valid description and every position and kind of malformation listed",
 "Tests reject about 45 fixed files; each only in one position and context.",
 ["sdp/decoder.go","sdp/sdp.go"],
 [("field validation","sdp/decoder.go"),("line validation","sdp/sdp.go Line.Decode")],
 ["error result of decoding mutated valid descriptions"])
p("T04","Silence ends a connection only when a read timeout asks for it, and on time",
 "A connection with a read timeout of N seconds is closed and reported disconnected N seconds after its peer fell silent, wherever within a message that happens, and is never ended while each message is complete less than N seconds after the previous one was handled by the application, however long the application takes for one; a header or body that has just been completed counts as a sign of life. A timeout the application sets, or removes, while handling a message is in force from then on. Without a read timeout, the default, and for every session, silence of any length, between or inside messages, ends nothing: later messages are delivered, sending and control requests go on.",
 ["schedules","inputs"],"every read timeout, every timing of the peer's bytes and of the application's handler, every position of the pause",
 NT+"and the guarantee is about every timing.",
 ["tcpnetwork/tcpnetwork.go","rtspclient.go","websocketconn.go"],
 [("read deadlines","tcpnetwork/tcpnetwork.go unpack, SetReadTimeoutSec")],
 ["connection events and their (virtual) times"])
p("R07","Control requests go out one at a time and get their own answer",
 "After a successful play, PAUSE, PLAY, TEARDOWN, DESCRIBE and SETUP sent by the application each put exactly one request on the wire and are answered by WaitRtspResponse with the status the server sent for it, whatever status that is, as soon as it arrives. Until that answer has been fetched every further request is refused with an error, puts nothing on the wire and uses no sequence number; after it, also after an unusable answer, the next request is accepted. A missing answer or a lost connection gives an error, the latter at once, and ends the session; answered requests never disturb the media around them.",
 ["inputs","histories"],"every sequence of control requests and every status, delay, placement among media or absence of the answers",
 NT+"and the guarantee covers every sequence of requests and answers.",
 ["rtsprequest.go","rtspclient.go"],
 [("request gate","rtsprequest.go sendRequst, rtspRequestInitial; rtspclient.go WaitRtspResponse")],
 ["return values of the Send calls and of WaitRtspResponse, requests on the wire, delivered media"])
p("D07","Missing fragments never damage other NAL units",
 "When packets of a fragmented H.264 or H.265 NAL unit never arrive, every NAL unit all of whose packets arrived is still delivered exactly once, byte-identical and in order, on its own track and on all others. An incomplete unit leads to at most one delivery in its place and to nothing when its last fragment is missing and the next packet is not a fragment that continues a unit.",
 ["inputs","fault_sequences"],"every sequence of NAL units and packetizations and every set of fragments missing at the end, at the start or inside of units",
 NT+"and the guarantee covers every pattern of loss.",
 ["rtpparser.go","h264rtpparser.go","hevcrtpparser.go"],
 [("reassembly","rtpparser.go pushData, splitRtpPacket")],
 ["buffers passed to the data handler"])
p("S08","SDP equality and accessors tell the truth",
 "Equal of lines, sessions, origins, connection data and encryption keys is true exactly when all fields are the same (an IPv4 address in its 4 or 16 byte form being the same), in both directions, and Blank exactly for the zero value. On messages and medias Attribute gives the first value of exactly that name, Values all of them in the order added, Flag whether the name was added, with or without a value; adding one name changes no other, and a message says the same after encoding and decoding. Start and End are those of the first time description, and the zero time without one.",
 ["inputs"],"every pair of values and every sequence of additions",
 "Tests compare a handful of pairs and add two attributes.",
 ["sdp/decoder.go","sdp/fields.go","sdp/sdp.go"],
 [("equality","sdp/fields.go Equal/Blank, sdp/sdp.go Equal, sdp/decoder.go Encryption.Equal"),("attributes","sdp/decoder.go Value/Values/Flag/AddAttribute/AddFlag/Start/End")],
 ["return values of the exported methods"])
p("C02","Sessions do not affect each other",
 "Several sessions of one process that are used at the same time each behave exactly as they do alone: the same requests at the same times with their own sequence numbers, session ids and credentials, the same outcome, events, media table, answers and media at the same times. This holds also when they have the same address, URL, credentials and content, and whatever the others go through meanwhile: a handler that blocks, a server that never reads, does not answer or sends garbage, a failing attempt, a Close.",
 ["schedules","inputs","fault_sequences"],"every number and combination of sessions, every relative timing and every misbehaviour of the others",
 NT+"and no test runs two sessions at all.",
 ["rtspclient.go","rtsprequest.go","authenticator.go","rtpparser.go","tcpnetwork/tcpnetwork.go","websocketconn.go"],
 [("per session state","rtspclient.go RtspClientSession, rtsprequest.go RtspClientContext, rtpparser.go RtpParser"),("per connection goroutines","tcpnetwork/tcpnetwork.go Run")],
 ["requests on the wire, events, return values, deliveries, each with its (virtual) time"])
p("M01","Memory and goroutines do not grow with use",
 "What a session or connection keeps in memory, and the number of its goroutines, is bounded by a constant, however long it lasts and whatever it receives: media, fragments of units that never end, RTCP, packets on unknown channels, unsolicited responses, control requests answered, refused or unanswered, silence, an application that takes no media. One session played again and again, many sessions or connections one after another, decoded descriptions and parsed URLs leave nothing behind either.",
 ["histories","inputs"],"every length of a session and every kind of traffic on it, every number of sessions",
 NT+"and growth shows only over long histories.",
 ["rtpparser.go","rtspclient.go","rtsprequest.go","tcpnetwork/tcpnetwork.go","websocketconn.go","sdp/decoder.go"],
 [("reassembly buffer","rtpparser.go"),("queues","rtspclient.go eventQueue, rtspResponseQueue; tcpnetwork/tcpnetwork.go"),("channel table","rtspclient.go rtpChannelMap")],
 ["live heap after garbage collection and number of goroutines after each phase of the same traffic"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
