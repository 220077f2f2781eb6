#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,quant,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=quant),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],state=[dict(name=a,meaning=b,where=c) for a,b,c in state],observe_at=list(observe),hook_needed=hook)))
HTTP='include/http/HTTPServer.hpp'; WS='include/http/WebSocket.hpp'; ENC='include/http/Encodings.hpp'; MIME='include/http/MimeType.hpp'
WL='include/weblink/WebLink.hpp'; MSG='include/weblink/Messages.hpp'; JSF='include/JsFunction.hpp'; WF='include/WebFront.hpp'
FSY='include/system/FileSystem.hpp'; NAT='include/system/NativeFS.hpp'; LOG='include/tooling/Logger.hpp'; HEX='include/tooling/HexDump.hpp'
TEF='include/utils/TypeErasedFunction.hpp'; NET='include/networking/BasicNetworking.hpp'

p('H01','HTTP answers depend only on the bytes that client sent',
 'The response bytes an HTTP client receives are a function of the bytes that client sent: they are the same however the transport splits those bytes into reads. They are also the same whatever other connections the server is handling at the same time and in whatever order their reads and writes are interleaved.',
 ['inputs','schedules'],'all request byte streams x all segmentations x all interleavings of concurrent connections',
 'The suite parses a handful of requests, one split into three fixed chunks, never two requests at once; no test instantiates the connection or server classes at all.',
 [HTTP],[('incremental request parser state machine','http::Request::completeRequest'),('per-connection request/response objects','http::Connection')],
 [('parser state','where in the request grammar this connection is','http::Request::state'),('partial method token','characters of the method seen so far','http::Request::completeRequest')],['bytes written to each client socket'])
p('H02','Well-formed requests are understood exactly, malformed ones get 400',
 'For every well-formed HTTP request the server recovers exactly the method, target, version numbers and ordered header names and values that were sent, and header lookups ignore letter case of the name, whatever the locale of the process, and see every occurrence. Blanks around a value are not part of it; where a value is continued on further lines, blanks stand for the ends of the lines (or the request is refused). A byte stream that violates the request grammar (illegal method or header-name character, control character, wrong version syntax, a missing CR or LF, an over-long version number) is answered 400 Bad Request and never acted upon.',
 ['inputs'],'all request byte streams generated from, or mutated away from, the request grammar',
 'Tests hold four literal requests and two malformed ones; the grammar has 20 states and unbounded tokens.',
 [HTTP],[('request state machine','http::Request::completeRequest'),('case-insensitive header search','http::Headers')],
 [],['parsed request fields','status code on the wire'])
p('H03','GET and HEAD serve the exact resource with truthful metadata',
 'A GET of an existing resource is answered 200 with exactly the resource bytes, a Content-Length equal to their number, the Content-Type that belongs to the file extension (in any letter case) and the Content-Encoding of the stored data; HEAD is answered with the same status and headers and no body. A missing resource (a name cut by a NUL is not that of a file) gives 404, an encoded resource whose encoding the client does not accept gives 506 on GET (it is accepted if the client lists it, or "*", with a weight above zero), any other method gives 501, and a target ending in "/" designates index.html there.',
 ['inputs','configurations'],'all methods x targets x resources (any size and content, plain or encoded, virtual or on disk) x Accept-Encoding headers',
 'Tests only serve a zero-byte mock file and look at three headers; body content, sizes around the 512-byte copy buffer, HEAD metadata and most MIME types are never checked.',
 [HTTP,MIME,FSY,NAT],[('method dispatch and copy loop','http::RequestHandler::handleRequest'),('extension table','http::MimeType')],[],['response bytes'])
p('H04','No request target escapes the document root',
 'Whatever the request target and however it is percent-encoded, the server never returns (through GET) or reveals as existing (through HEAD) a file that lies outside the document root. Every regular file inside the document root whose path contains no ".." is reachable by its (possibly percent-encoded) path.',
 ['inputs','configurations'],'all request targets against document roots with files inside, beside, above and absolute',
 'No test requests a path through the native file system via HTTP and none tries a traversal.',
 [HTTP,NAT,ENC],[('".." rejection after decoding and relative_path()','http::RequestHandler::handleRequest'),('root-relative open','fs::NativeDebugFS')],[],['response bytes compared with canaries placed outside the root','files opened while handling'])
p('H05','One complete well-formed response per request, whatever the back-pressure',
 'Every completed or rejected HTTP request receives exactly one response: a status line whose reason matches its code, header lines, an empty line, and a body of exactly Content-Length bytes, followed by the end of the connection unless the protocol was switched. The bytes received are complete and unaltered however slowly or in whatever pieces the transport accepts them and whatever other responses are in flight.',
 ['schedules','inputs'],'all sets of concurrent requests x all partial-write schedules and write-window sizes',
 'No test writes a response to a socket: the mock network copies buffers synchronously, so lifetime and sharing of the buffers are never exercised.',
 [HTTP],[('gather buffers over the response object','http::Response::toBuffers'),('response kept in the connection during the write','http::Connection::write')],
 [('status line storage','must outlive the write and belong to one response','http::Response::toBuffers')],['bytes received by each client, end of stream'])
p('H06','WebSocket upgrade happens exactly when asked, with the RFC 6455 key',
 'A GET carrying "Connection: upgrade", "Upgrade: websocket" (any letter case, whatever the locale, possibly among other tokens of these lists, but not as a part of one) and a Sec-WebSocket-Key is answered 101, switching to websocket, with Sec-WebSocket-Accept equal to base64(SHA-1(key followed by the RFC 6455 GUID)) for every key, and its connection is handed to the upgrade handler exactly once, after the response has been sent. The answer names the subprotocol WebFront_0.1 if the client offered it and no subprotocol otherwise. A request lacking any of the three is never switched.',
 ['inputs','schedules'],'all keys, header orders, casings and token lists, all write schedules of the 101 response',
 'Two literal keys are checked; casing, header lists, hand-over and its timing are not.',
 [HTTP,WS,ENC],[('upgrade detection','http::Request::isUpgradeRequest'),('accept key','websocket::getHashedSecKey'),('hand-over after the write completes','http::Connection::write')],[],['response bytes','upgrade handler calls'])
p('H07','A client that is slow, silent or stuck delays nobody, and is served when it goes on',
 'However many clients connect and then stop at any point - sending nothing, a part of a request, of a frame or of a message, no handshake, or no longer receiving what they are sent - every other client, whether it came before or comes later, is accepted, answered, announced, has its calls run and receives what it is told, completely, while they are stuck: the server never waits for one client. A client that goes on after any such pause is served as if it had not paused, and receives everything it was sent meanwhile, in order.',
 ['histories','schedules','fault_sequences'],'all sets of clients x all points at which each of them stops x all schedules of the others',
 'No test has two clients, a transport that stops accepting bytes, or an event loop.',
 [HTTP,WS,WF],[('accept is armed again at once','http::Server::accept'),('asynchronous reads and writes only','http::Connection, websocket::WebSocket'),('pending writes kept per WebSocket','websocket::WebSocket::writeData')],[],['bytes each client receives while others are stuck','synchronous operations that would wait for a client','calls run, announcements'])
p('S01','No client or network failure can stop the server or corrupt memory',
 'Whatever bytes clients send, in the HTTP or WebSocket phase, and whatever the network does (reset, abrupt close, failing or partial writes, failing accepts, errors when shutting a socket down), no exception leaves the event loop and no invalid memory access or undefined behaviour occurs. Other clients, present and future, continue to be served correctly.',
 ['inputs','fault_sequences','schedules'],'all client byte streams x all fault placements x all interleavings with healthy clients',
 'Tests never run the server loop and contain no fault; sanitizers are not part of the test run.',
 [HTTP,WS,WL,MSG,WF],[('bad-request exception handling','http::Connection::read'),('bounds checks on messages','msg::MessageBase, msg::FunctionCall::decodeParameter'),('error completion handlers','http::Connection, websocket::WebSocket')],[],['event loop return/throw','sanitizer reports','probe requests of healthy clients'])
p('S02','Everything kept for a connection is released when it ends',
 'When an HTTP exchange or a WebSocket session ends, for whatever reason (response sent, client close, reset, error, close frame), its socket is closed and every socket, connection record, link and log subscription the server held for it is released. Serving any number of connections one after the other therefore leaves the server holding no more than it did when idle.',
 ['histories','fault_sequences'],'all histories of connections and ways for them to end',
 'No test opens a connection; leaks accumulate only over a history of connections.',
 [HTTP,WS,WL,WF],[('connection set','http::Connections'),('closed event','WebLinkEvent::Code::closed, BasicWF::onEvent'),('sink removal','WebLink::~WebLink')],
 [('live links','links not yet closed','BasicWF::webLinks'),('log sinks','subscribed sinks','log::Sinks')],['count of live transport sockets','count of subscribed sinks','links reachable by id'])
p('S04','Use leaves nothing behind: the memory held depends only on what is open',
 'Repeating the same use any number of times leaves the process holding no more memory than the first times did. This holds for an open link or WebSocket, however many messages of any kind (calls, unknown or malformed calls, texts, control frames, repeated handshakes, messages in several frames) it has received, and however many scripts, JavaScript calls and log lines were sent to it. It holds as well for everything that comes and goes: requests and responses, files read, URIs, encoders, frames, messages, log sinks, whole exchanges and sessions.',
 ['histories','inputs'],'all histories of use of any length',
 'Tests make each use once and measure no memory; growth only shows over a history.',
 [HTTP,WS,WL,MSG,WF,JSF,LOG,FSY,NAT],[('reuse of the decoder','websocket::FrameDecoder::reset'),('write queue','websocket::WebSocket::write'),('call registry','BasicWF::cppFunctions'),('log lines','log::out')],
 [('message being received','frames of it that have arrived','websocket::WebSocket'),('messages to send','not yet written','websocket::WebSocket')],['heap bytes in use, sampled'])
p('S03','Independent objects can be used from different threads',
 'Requests, responses, request handlers, URIs, encoders, hashes, frame encoders and decoders, files and messages that belong to different threads share no mutable state: using them concurrently is free of data races. Each thread obtains exactly the results it would have obtained alone.',
 ['schedules'],'all thread interleavings of operations on distinct objects',
 'The test suite is single-threaded; hidden shared state such as function-local statics only shows under concurrency.',
 [HTTP,ENC,WS,MSG,FSY],[('absence of shared mutable statics','http::Request, http::Response, uri::URI, uri::encode')],[],['ThreadSanitizer reports','per-thread results'])
p('W01','Incoming WebSocket messages are delivered exactly once, whole and in order',
 'Every text or binary message a client sends on an open WebSocket, in one masked frame or in several, is delivered to the text or binary message handler exactly once, in order, with exactly its payload, for every payload size and length encoding class, every mask, and every way the transport splits or coalesces the frames into reads. Control and unknown frames in between are never delivered as messages and do not disturb the stream; decoding never reads beyond the bytes received.',
 ['inputs','schedules'],'all sequences of frames, messages of one frame or several x all segmentations and coalescings',
 'One 8-byte frame is decoded in three fixed splits; extended lengths, several frames per read and more than two reads per frame are never tried.',
 [WS],[('frame decoder state machine','websocket::FrameDecoder::parse'),('read loop','websocket::WebSocket::read')],
 [('header bytes gathered so far','partial frame header','FrameDecoder::headerBuffer'),('payload gathered so far','unmasked payload','FrameDecoder::payloadBuffer')],['message handler calls'])
p('W02','Outgoing WebSocket messages arrive whole, in order, as valid frames',
 'Every message written to a WebSocket reaches the peer as exactly one final, unmasked frame with the opcode of its kind, the minimal length encoding, and exactly the payload given at the time of the write call, whatever its size and even if the caller releases or changes its buffers right after the call. Frames appear in the order of the writes and are never interleaved or altered, however the transport splits or delays the writes.',
 ['inputs','schedules'],'all sequences of writes of all sizes x all partial-write schedules',
 'Tests look at one 8-byte text frame through a synchronous mock; sizes that change the header, pending writes and buffer lifetimes are never exercised.',
 [WS],[('frame header construction','websocket::Header::setPayloadSize, websocket::Frame'),('write path','websocket::WebSocket::writeData')],
 [('pending outgoing data','frames not yet accepted by the transport','websocket::WebSocket')],['bytes received by the peer'])
p('W03','The end of a WebSocket is reported exactly once and is final',
 'When a WebSocket ends because of a close frame, end of stream, a read error or a write error, its close handler is called exactly once and its socket is closed. No message is delivered and nothing more is sent after that, nor after the application has stopped it, and destroying the WebSocket, from its close handler or with operations still pending, is safe.',
 ['histories','fault_sequences','schedules'],'all histories of frames, writes, faults and destruction points',
 'No test ends a WebSocket.',
 [WS],[('stop() and handler guards','websocket::WebSocket')],[('started flag','socket is in use','websocket::WebSocket::started')],['close handler calls','socket state','sanitizer reports'])
p('L01','A call from JavaScript runs the right C++ function once with the right arguments',
 'When a client sends a well-formed call of a registered C++ function, that function runs exactly once, with exactly the argument values sent (booleans, numbers, strings, tuples, the default value for an undefined argument), calls of one client being executed in the order sent, however long after registration and whatever object was used to register it. A call of an unknown function runs nothing and is answered to that client only with a function-return message carrying an exception text; a malformed or incomplete call, or one whose arguments are not of the parameter types, runs nothing. A function that throws a standard exception ends neither the server nor that connection, and the calls that follow run as before.',
 ['inputs','histories'],'all registered signatures x argument values x call sequences x clients',
 'Tests decode two captured messages directly; registration, dispatch, lifetimes of the registered callable and errors are never exercised.',
 [WF,WL,MSG],[('function registry','BasicWF::cppFunction'),('dispatch','WebLink binary handler, BasicWF::onEvent')],[('registry','name to callable','BasicWF::cppFunctions')],['invocations recorded by registered functions','frames sent back'])
p('L02','A call of a JavaScript function carries exactly its name and arguments',
 'Every invocation of a JavaScript function object sends its client exactly one call message whose announced parameter count and data size are right and which decodes to exactly the function name and the argument values passed, in order, for every supported argument type and size, and however often the same function object is invoked. An argument list that cannot be represented is refused, by the compiler or with an exception, and never sends a corrupt message.',
 ['inputs','histories'],'all argument lists x all sequences of invocations on the same or different function objects',
 'Each test invokes a function object once and looks at bytes after the frame header; header, repeated calls, large calls and limits are unchecked.',
 [JSF,MSG,WS],[('message composition','JsFunction::operator()'),('parameter encoding','msg::FunctionCall::encodeParameter')],
 [('encode buffer index','scratch space used by this message','msg::FunctionCall::encodeBufferIndex')],['bytes received by the client'])
p('L03','Parameters survive an encode/decode round trip',
 'Decoding an encoded parameter list into the same types yields exactly the original values (booleans, integers exactly representable as doubles, floating point numbers including infinities and signed zeros, strings of up to 65535 arbitrary bytes, exception texts, nested tuples) and consumes exactly the encoded bytes. The same holds for any concatenation of parameters.',
 ['inputs'],'all values of all supported types and all parameter lists',
 'Tests round-trip one exception and one pair; booleans are never decoded.',
 [MSG],[('encodeParameter / decodeParameter','msg::FunctionCall')],[],['decoded values, remaining data'])
p('L04','Hostile messages are refused without reading outside the received bytes',
 'Interpreting any byte sequence as a message (handshake, call, return) and decoding parameters from it into any combination of types reads only bytes inside that sequence and either yields values or throws a standard exception. A message whose announced size exceeds the bytes received is refused, and a number that the target type cannot represent is never converted with undefined behaviour.',
 ['inputs'],'all byte sequences x all target signatures',
 'Tests only decode well-formed messages, except for one tuple arity error.',
 [MSG],[('size checks','msg::MessageBase::castFromRawData'),('bounds checks','msg::FunctionCall::decodeParameter')],[],['sanitizer reports on exactly-sized buffers','exceptions'])
p('L05','Injected scripts and forwarded logs arrive as the exact text',
 'A script injected through a UI reaches that client as one inject-script command announcing and carrying exactly the text given, for every text of up to 65535 bytes; a longer text is refused with an exception rather than truncated or corrupted. Every log line enabled after a client has linked reaches it as one debug-log command with that line, log lines longer than the limit being shortened to a prefix.',
 ['inputs'],'all texts of all lengths',
 'Text commands are not covered by any test.',
 [MSG,WL,WF],[('length field','msg::TextCommand'),('log sink','WebLink handshake handler')],[],['bytes received by the client'])
p('L06','Links are identified, announced and isolated from each other',
 'Each WebSocket client gets a link whose id differs from that of every other live link; its handshake is acknowledged once with the server endianness and announced once to the UI-started callback with a UI bound to that very client, and without a callback nothing breaks. Whatever is sent through a UI reaches only its client, in order; once that client is gone using its UI raises an exception and affects no one else.',
 ['histories','schedules'],'all interleavings of connects, handshakes, sends and disconnects of several clients',
 'The link and UI classes are never instantiated by the tests.',
 [WF,WL],[('id allocation','BasicWF constructor'),('event dispatch','BasicWF::onEvent')],[('links by id','live links','BasicWF::webLinks')],['per-client bytes','callback invocations'])
p('L07','The embedded browser client and the C++ side understand each other',
 'Executed against the JavaScript client shipped inside the library, every call made from C++ invokes the named JavaScript function once with equal argument values, and every call made from JavaScript invokes the registered C++ function once with equal argument values. Handshake, acknowledgement and script injection are likewise understood by both sides.',
 ['inputs'],'all function names and argument lists of types both sides support (booleans, numbers, UTF-8 strings, arrays of these), for calls made from JavaScript once the page has received the acknowledgement; an array inside an array passed from JavaScript is a known finding',
 'No test runs the JavaScript client; the wire format is only compared with itself.',
 [MSG,JSF,WL,'include/system/IndexFS.hpp'],[('wire format','msg::*'),('embedded WebFront.js','fs::IndexFS')],[],['calls observed in a JavaScript engine and in registered C++ functions'])
p('E01','SHA-1 equals FIPS 180-4 on every input',
 'The digest computed for any byte string, of any length below 2^61 bytes and any content including zero and high bytes, equals the SHA-1 digest defined by FIPS 180-4, and the textual form is its 40-digit lower-case hexadecimal.',
 ['inputs'],'all byte strings, in particular all lengths around the 64-byte block and padding boundaries',
 'Three inputs shorter than one block are tested.',
 [ENC],[('block loop and padding','crypto::sha1')],[],['digest'])
p('E02','Base64 encoding equals RFC 4648 for every length',
 'Encoding any container of bytes or integers, of any length including 0, 1 and 2 and multiples of 3, yields exactly the RFC 4648 encoding with padding of its bytes (in memory order, or in network order for the network-order variant), and nothing else.',
 ['inputs'],'all byte strings of all lengths',
 'Only 20-byte digests are encoded by the tests, i.e. one residue modulo 3.',
 [ENC],[('encode loop and tail','base64::detail::encode')],[],['encoded string'])
p('E03','Percent-encoding round-trips every byte string',
 'Encoding any byte string yields only unreserved characters and upper-case %XX escapes that denote exactly its bytes, whatever the locale of the process, and decoding the result gives the original back. Decoding any string at all replaces each valid %XX escape (either hexadecimal case) by its byte and each "+" by a space, and copies everything else, including malformed or truncated escapes, unchanged.',
 ['inputs'],'all byte strings',
 'Four literal strings, all ASCII, are tested.',
 [ENC],[('encode / decode','uri::encode, uri::decode')],[],['output string'])
p('E04','URI splitting follows RFC 3986 and depends only on its input',
 'For every absolute URI scheme://authority[/path][?query][#fragment] the components obtained are those RFC 3986 gives (absent ones empty), including user info, host and port inside the authority. The result depends on that text alone: earlier parses, even of malformed text, never influence it, and no text makes parsing throw.',
 ['inputs','histories'],'all URIs with any subset of components x all sequences of parses',
 'Five literal URIs are parsed, all with a path and none with a fragment but no query; no malformed text precedes another parse.',
 [ENC],[('component extraction','uri::URI::next')],[],['components'])
p('F01','Reading a file yields its exact bytes for every buffer pattern',
 'Reading a virtual or native file with any sequence of buffer sizes yields its bytes exactly once, in order and unaltered, never more than the buffer holds nor beyond the file size; each read fills its buffer unless the end is reached, and reads after the end return 0. End of file is reported only once all bytes have been read.',
 ['inputs','histories'],'all contents and sizes x all sequences of read sizes',
 'Virtual files are read whole into a large buffer, native ones with a 27-byte file.',
 [FSY,NAT],[('big-endian word unpacking','fs::File::readData'),('stream read','fs::File::readFStream')],[('readIndex','next byte','fs::File::readIndex')],['bytes read'])
p('F02','Layered file systems serve the first provider that has the file',
 'Opening a name through a combination of file systems returns the file of the first one, in declaration order, that provides that name, consults no later one, and returns nothing exactly when none provides it; every one of them is given the document root.',
 ['inputs','configurations'],'all combinations and orders of providers x all names',
 'One fixed three-provider combination is tested.',
 [FSY],[('recursive lookup','fs::Multi::openFile')],[],['file returned, providers consulted'])
p('F03','Every embedded asset is complete and decodes as declared',
 'Each file built into the library (index page, icon, client script, Jasmine, React, Babel) is found under exactly its published name and no other, has data for exactly its declared size, and its bytes decode completely under its declared content encoding to valid content of its kind.',
 ['configurations'],'all embedded assets, and all near-miss names',
 'Tests compare declared sizes with themselves; nothing is ever decompressed.',
 ['include/system/IndexFS.hpp','include/system/JasmineFS.hpp','include/system/ReactFS.hpp','include/system/BabelFS.hpp',FSY],[('packed data arrays','fs::IndexFS, fs::JasmineFS, fs::ReactFS, fs::BabelFS')],[],['decoded content'])
p('T01','Enabled log records reach every subscribed sink exactly once',
 'A record of an enabled level is delivered exactly once to every currently subscribed sink, in subscription order, as one line showing its level letter and its formatted text (whatever characters the arguments contain); a record of a disabled level reaches none. Removing a sink stops its deliveries only, from that moment, also when a sink removes or adds sinks while it receives a line; setting a log level enables exactly the levels up to it.',
 ['histories','inputs'],'all histories of level changes, subscriptions, removals and records',
 'One sink and a fixed sequence of eight records are tested.',
 [LOG],[('level table','log::logTypeEnabled'),('sink list','log::Sinks')],[],['lines received by each sink'])
p('T02','A hex dump shows exactly the bytes of the buffer',
 'The dump of any buffer lists every byte exactly once, in order, as two hexadecimal digits, sixteen per line under the correct address, with printable characters alongside, so that the buffer can be rebuilt from it; two buffers are dumped as if contiguous. It is the same in every locale. Writing a dump to a stream leaves that stream formatting as it was.',
 ['inputs'],'all buffers, lengths and start addresses',
 'The dump is only printed by the tests, never compared.',
 [HEX],[('dump operator','utils::HexDump'),('hexDump','utils::hexDump')],[],['dump text'])
p('T03','Type-erased functions run exactly when the argument types match',
 'Invoking a type-erased function with arguments of exactly its parameter types runs the stored callable exactly once with those values and, through the typed call, returns its result; any other argument list runs nothing and throws invalid_argument. An exception of the callable reaches the caller. This holds for lambdas, functions, function objects and bound callables, for the lifetime of the wrapper, independent of the original callable, of earlier calls that threw and of calls made from within the callable.',
 ['inputs','programs'],'all supported callables x all argument lists',
 'Four callables and one mismatch are tested, and the value-returning call never is.',
 [TEF],[('dynamic_cast on the erased signature','utils::TypeErasedFunction')],[],['invocations and results'])
p('T04','Logging never changes what the server does',
 'Whatever the log level is, however it changes while clients are connected and however many sinks are subscribed, every client receives the same answers and the same frames (debug-log commands aside), the same calls run with the same arguments, and the same browsers are announced, as with logging disabled. While logging is disabled no client receives a debug-log command.',
 ['inputs','histories','schedules'],'all levels and level changes x sinks x client byte streams x schedules',
 'No test runs a server, let alone twice with different levels.',
 [LOG,HTTP,WS,WL,WF],[('level test','log::details'),('sink that forwards to the browser','WebLink handshake handler'),('log statements','http::Connection, websocket::WebSocket, WebLink')],[('enabled levels','levels that are logged','log::out')],['bytes received by each client','calls seen by the application'])
p('N01','Network buffer views describe exactly the memory they were made from',
 'A buffer view made from an array, vector, string, string view or raw memory covers exactly the bytes of that object (element count times element size), a view limited to n elements covers those or the whole object, whichever is smaller, however large n is, and advancing a view by any amount never leaves the original bytes and drops exactly that many, or all.',
 ['inputs'],'all containers, element types, sizes, limits and advances',
 'Buffers are only used implicitly with small strings.',
 [NET],[('Buffer overloads','networking::BasicNetworking::Buffer'),('operator+=','networking::buffers')],[],['view data and size'])
p('N02','A server serves at the address and port it was given, and only there',
 'A server or application constructed for an address and a port accepts and serves every client that connects there, from the end of its constructor until it is destroyed: before its loop runs and while it does, one client at a time or many at once. Clients of any other address or port are not served by it. Constructing one for a port that is in use, for an address the machine does not have or for malformed text raises an exception and leaves the running ones as they were. Once a server is destroyed its connections are closed, clients are refused there, and another one can be started on the same port at once, also while connections of the old one are still closing.',
 ['inputs','histories','faults'],'all sequences of starting and ending servers on shared addresses and ports, failing starts, and clients connecting in between',
 'No test constructs a server: the acceptor, its options and its address are never exercised.',
 [HTTP,'include/WebFront.hpp'],[('acceptor set-up and accept loop','http::Server::Server'),('application on all addresses','BasicWF::BasicWF')],[],['who is served where','exceptions of constructors','connections after the end'])
p('P01','The demonstration programs do what they show',
 'Started where its page can be found (react.html for HelloWorld, SpecRunner.html for JasmineTest: in the current directory, else in the temp directory, else in the source folder of an enclosing directory called WebFront, the outermost first), each demonstration program listens on port 9002, then asks the system once to open http://localhost:9002/ followed by the name of its page, and serves that page and everything it refers to. In every browser that runs the client script it injects its script and calls its function, so that HelloWorld prints "Hello World of 2022" once for each of them and JasmineTest calls the print function of the page with "Hello World of 2023"; the texts a browser prints appear once and in order, and calls of functions the program does not have are refused and end nothing. Without the page, HelloWorld ends with an exception and JasmineTest with a logged error that name it, and nothing is opened.',
 ['inputs','configurations','schedules'],'all directory layouts, numbers of browsers, calls they make, files asked for, segmentations and schedules',
 'The programs are built but never run by the tests.',
 ['src/HelloWorld.cpp','webtest/JasmineTest.cpp','src/react.html','webtest/SpecRunner.html',WF],[('search of the document root','findDocRoot'),('set-up of the application','main'),('browser start','openInDefaultBrowser')],[],['standard output','command given to the system','bytes served','calls observed in a JavaScript engine'])
p('M01','Every header stands alone, and all parts of a program share one library',
 'The library consists of headers: each of them compiles when it is the first or the only one included, and they go together in any order, in any number of translation units of one program, which link. These translation units share one library: a log sink subscribed in one receives, exactly once, the records of enabled levels made in any other, the levels set in one hold in all, a sink removed in one is removed; functions, files and applications made in one work in the others; equal arguments give equal results in all. This holds from the first use on, also when that comes before main.',
 ['programs','histories'],'all subsets and orders of headers, all programs of several translation units, all histories of uses spread over them',
 'Each test is one translation unit that includes a few headers in one order, and no test includes the headers of the application.',
 [LOG,MSG,TEF,WF,'include/networking/NetworkingMock.hpp','include/networking/TCPSockets.hpp'],[('header guards and includes','include/**'),('inline state','log::out, log::logTypeEnabled')],[('sinks','one list for the program','log::Sinks')],['outcome of compilers and linker','lines received by sinks of other parts','calls and results across parts'])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,'properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P))
