import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=observe or []
    a["hook_needed"]=None
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))
FR="src/frames/mod.rs"; PL="src/frames/payloads.rs"; HD="src/frames/headers.rs"; FG="src/fragmentation.rs"; DF="src/defragmentation.rs"; CN="src/connection/mod.rs"; PO="src/connection/pool.rs"; SV="src/server.rs"; SU="src/subchannel.rs"; CH="src/channel.rs"; HN="src/handler.rs"; ME="src/messages/mod.rs"; RA="src/messages/raw.rs"; JS="src/messages/json.rs"; ER="src/errors.rs"
p("C01","A frame travels the wire unchanged and in the published layout",
 "Writing any frame (any message id, any type, any payload that fits) produces the 16 byte header of the protocol (length including the header, type, zero reserved byte, id, eight zero reserved bytes) followed by exactly the payload, and reading those bytes yields the same id, type and payload. Bytes before the frame in the output and bytes after it in the input are left alone.",
 ["inputs"],"every id, every type byte, every payload content, any bytes before and after, any read buffer",
 "The tests encode one or two hand written frames; they cannot cover every id, type and payload nor arbitrary surrounding bytes.",
 [FR],[("TFrameIdCodec encoder","src/frames/mod.rs: impl Encoder<TFrameId>"),("TFrameIdCodec decoder","src/frames/mod.rs: impl Decoder")],observe=["bytes written to the connection","frame read back"])
p("C02","The frames read do not depend on how the byte stream is cut",
 "However the bytes of a sequence of frames are split into reads, and however a connection splits writes, a reader sees exactly the frames which were written, in order. A stream which ends inside a frame or contains a malformed header is reported as an error, never as a different frame, and the frames before it are still delivered.",
 ["inputs","schedules"],"every pair or triple of read sizes, arrival sizes and write sizes, every point at which the stream ends, every malformed header",
 "Tests over loopback get whatever chunking the kernel produces, practically always one read per frame.",
 [FR,CN],[("incremental decoding","src/frames/mod.rs: TFrameIdCodec::decode"),("framed streams","src/connection/mod.rs: FrameReceiver, FrameSender")],observe=["sequence of decoded frames","bytes on the connection"])
p("C03","Every length written equals the bytes that follow, or the write is refused",
 "Whenever something is encoded (frame, header, string, arg), the length written in front of it equals the number of bytes which follow; what is too long for its length field is refused with an error instead of being written with a wrong length. After a refusal the connection carries on with the next frame intact.",
 ["inputs"],"all payload, string and arg lengths around the limits of their length fields (255, 65535 and their neighbourhoods and multiples)",
 "Tests use short strings; a wrapped length needs an input at the limit, and the corrupted stream only shows in the frames after it.",
 [FR,PL,FG],[("frame length check","src/frames/mod.rs: Encoder<TFrameId>::encode"),("string and arg length fields","src/frames/payloads.rs: encode_string, encode_small_string, encode_args")],observe=["bytes written","errors returned"])
p("C04","Payload codecs are inverse to each other and follow the protocol layout",
 "For every message kind (handshake, call request, call response, continuations, cancel, claim, error) encoding any well formed value gives the layout of the protocol field by field, and decoding that gives the same value.",
 ["inputs"],"all flag, code, ttl, tracing and checksum values, any strings, headers and args within the size bounds",
 "The tests round-trip a handful of fixed messages; swapped fields, sign or width errors appear only for other values.",
 [PL,HD],[("Codec implementations","src/frames/payloads.rs: impl Codec for Init, CallRequest, CallResponse, CallContinue, Cancel, Claim, ErrorMsg"),("header and arg codecs","src/frames/payloads.rs: encode_headers, decode_headers, encode_args, decode_args")],observe=["encoded bytes","decoded value"])
p("C05","No bytes from the network make the program panic",
 "Whatever bytes a peer sends, as a frame, as the payload of any message kind, or as a sequence of frames of one message, decoding ends with a value or an error: it never panics, overflows or reads past the data. A client or server which receives such bytes keeps working or reports an error to the caller.",
 ["inputs","fault_sequences"],"all byte strings up to the stated lengths, for every decoder and through a running client and server",
 "Tests send well formed frames only; the inputs which break a decoder are exactly the ones nobody wrote down.",
 [FR,PL,DF,SV,CN],[("length checks before reads","src/frames/payloads.rs: decode_* functions"),("frame size check","src/frames/mod.rs: Decoder::decode"),("errors instead of panics","src/defragmentation.rs")],observe=["result of decoding","liveness of the connection"])
p("C06","A payload is accepted exactly when the protocol allows it, with that meaning",
 "For any bytes, a decoder accepts them if and only if they are a well formed payload of its kind, and then the value is the one the protocol assigns: nothing truncated, out of range, over-long or non UTF-8 gets accepted as something else.",
 ["inputs"],"all byte strings up to the stated lengths, compared with an independent reader of the protocol (bytes after a complete handshake, cancel, claim or error payload are ignored)",
 "Tests decode only what the library encoded itself, so a decoder which accepts too much or misreads a field consistently goes unnoticed.",
 [PL,HD],[("strict field decoding","src/frames/payloads.rs: decode of each message kind"),("enum conversions","src/frames/payloads.rs: Flags, ErrorCode, ChecksumType; src/messages/mod.rs: ResponseCode")],observe=["accept or reject","decoded value"])
p("C07","A message of any size becomes a legal sequence of frames",
 "For arguments of any sizes, the frames made of a request or response are legal: each fits the maximal frame size, exactly the first one carries the call fields, the others are continuations of the right kind, exactly all but the last announce more, no frame is empty of progress and no continuation lacks the mark for an argument which ended with the frame before.",
 ["inputs"],"all argument lengths in windows around every frame boundary, empty arguments, all service name lengths",
 "Boundary cases occur for one length in 65000; the tests pick three lengths.",
 [FG],[("fragmenter","src/fragmentation.rs: Fragmenter::create_frames"),("space accounting per frame","src/fragmentation.rs: ArgsFragmenter::next_frame_args_vec")],observe=["frames produced"])
p("C08","Reassembly gives back exactly the arguments that were sent",
 "For any legal split of a message's arguments into frames and fragments, by this library or by any other implementation, the receiver obtains the same number of arguments with the same bytes, empty ones included.",
 ["inputs"],"every legal split within the bounds, all argument lengths around the frame boundaries",
 "Tests reassemble a single frame, or one fixed large message; other implementations split elsewhere.",
 [DF,FG],[("defragmenter","src/defragmentation.rs: ArgsDefragmenter"),("fragmenter","src/fragmentation.rs: ArgsFragmenter")],observe=["arguments handed to the handler or caller"])
p("C09","A message which is incomplete or malformed is an error, never a shorter message",
 "If the frames of a message stop before the last one, or contain a frame of a foreign kind, an unsupported checksum, an unreadable payload or an unknown argument scheme, the receiver gets an error. It never gets a message assembled from part of the data, and while frames are still missing it waits.",
 ["inputs","fault_sequences"],"all sequences of frames within the bounds, cut anywhere, with any frame type, checksum type and announced continuation (continuations of requests and of responses are not told apart)",
 "There is no test in which a message ends early; the truncated result looks like a normal message.",
 [DF],[("end of stream check","src/defragmentation.rs: read_continuation"),("frame type and checksum checks","src/defragmentation.rs: read_beginning, verify_args, get_args_scheme")],observe=["result of the call or of the request"])
p("C10","Every call gets its own response, whatever else is on the connection",
 "When several calls share a connection, each caller receives exactly the response to its request and each handler exactly the arguments of one request, for every order and interleaving of the frames and every schedule of the tasks involved. Frames which belong to no call affect none.",
 ["schedules","inputs","histories"],"all interleavings of the frames of up to 3 calls, all schedules with the stated number of delayed wakeups and preemptions, all message ids",
 "Loopback tests run calls mostly one after another; crossing of responses needs a particular interleaving.",
 [CN,SV,SU],[("dispatch by message id","src/connection/mod.rs: FramesDispatcher"),("response frames tagged with the request's id","src/server.rs: FrameHandler")],state=[("senders","pending message id to the channel of its frames","src/connection/mod.rs: FramesDispatcher")],observe=["results of concurrent calls","frames on the wire"])
p("C11","Message ids in flight are distinct and a duplicate harms no one",
 "The messages a client has in flight on one connection have distinct ids, and an id can be used again once its message is over. Registering a second message under an id in flight is refused and the first one still gets all its frames. A peer which starts another message under the id of one it has not finished harms at most that one: no message is assembled from parts of both, and all others, on this and other connections, are served.",
 ["histories","schedules"],"every sequence of registrations, deregistrations and frames within the bounds, concurrent callers, long lived messages among thousands of others",
 "A collision needs a wrapped counter, a misbehaving peer or a race; tests have none.",
 [CN],[("id generator","src/connection/mod.rs: FramesIO / Connection::new_frames_io"),("duplicate check","src/connection/mod.rs: FramesDispatcher::register, dispatch_first")],state=[("next id","the id for the next message","src/connection/mod.rs: Connection")],observe=["ids on the wire","results of registration","frames received"])
p("C12","A failing request is answered with an error and harms nothing else",
 "Whatever is wrong with a request (unknown service or endpoint, unreadable payload, unsupported scheme or checksum, failing handler), its caller is answered with an error under its id. The connection stays up and all other requests on it, pending or later, are served.",
 ["inputs","fault_sequences","histories"],"every kind of failure next to other requests at every interleaving, arbitrary bytes as request payloads",
 "Tests check one failing call at a time and open a new connection for the next.",
 [SV,CN],[("error frames","src/server.rs: FrameHandler::handle"),("late frames dropped","src/connection/mod.rs: FramesDispatcher::dispatch")],observe=["frames sent by the server","later requests on the connection"])
p("C13","The handler's outcome is what the caller sees",
 "If the handler returns a message the caller gets Ok with that message; if it returns an error message the caller gets an error carrying that message; any other handler failure, and an error frame of any code, gives the caller an error and never an Ok.",
 ["inputs"],"all outcomes, any header and body, responses of several frames, error frames with every code",
 "Tests cover one Ok and one failing handler; they do not look at the response code on the wire.",
 [HN,SV,SU,DF],[("outcome conversion","src/handler.rs: convert"),("response code","src/fragmentation.rs: ResponseFragmenter; src/subchannel.rs: SubChannel::send")],observe=["response code on the wire","result at the caller"])
p("C14","Nothing passes before a handshake of the supported version",
 "A connection is used only after an init request and its init response with the supported protocol version, exchanged under one id; any other frame, version or unreadable payload in their place is refused, in both roles. A server serves no request of a connection which did not complete the handshake.",
 ["inputs","fault_sequences"],"all versions, all frame types, all payload bytes within the bound, or the end of the stream",
 "Both ends of the tests are this library, so the handshake always succeeds.",
 [SV,PO],[("server side check","src/server.rs: handle_init_handshake"),("client side check","src/connection/pool.rs: verify")],observe=["frames on the wire","result of connecting"])
p("C15","When a connection ends, every call in flight ends with an error",
 "When a connection is closed, reset or lost at any point, each call waiting on it returns an error promptly (unless its whole response had arrived), none waits forever, and none gets a partial response. On the server the incomplete requests of that connection end too, and reach no handler.",
 ["crash_points","schedules","fault_sequences"],"the connection ends at every byte of the exchange, in each way, with up to 1 delayed wakeup",
 "Tests never break a connection; a hang shows only at particular points of the exchange.",
 [CN,SV],[("pending calls closed","src/connection/mod.rs: FramesDispatcher::close, FrameReceiver"),("incomplete requests closed","src/server.rs: close_dispatcher")],state=[("closed","whether the connection has ended","src/connection/mod.rs: FramesDispatcher")],observe=["results of calls","tasks left over"])
p("C16","The system makes progress: no mix of requests blocks it for good",
 "With any buffer size (of at least one), limit of concurrent handlers and connection capacity, every request whose frames arrive is eventually handled and answered, for every interleaving of the frames of concurrent requests. A request which waits for its own frames or for a slow handler stops no other one for good, and the limit of concurrent handlers is kept.",
 ["schedules","configurations","histories"],"all interleavings of multi-frame requests, buffers of 1 to 4, handler limits of 0 to 2, small connection capacities, schedules with delayed wakeups and preemptions",
 "A deadlock needs more interleaved requests than the limit, or a full buffer at the wrong moment; the tests' defaults are large.",
 [SV,CN],[("reading decoupled from handling","src/server.rs: try_for_each_concurrent and the semaphore"),("bounded channels","src/connection/mod.rs: FrameSender, FramesDispatcher")],state=[("tasks","permits for handlers","src/server.rs: FrameHandler")],observe=["completion of all calls","number of handlers running"])
p("C17","A request runs exactly the handler registered for its service and endpoint",
 "A request is handled by the handler registered under exactly its service and endpoint names, and by none when there is none or it was unregistered. Registering a taken name or unregistering a missing one is an error which changes nothing, and looking a service up twice gives the same subchannel.",
 ["histories","inputs"],"every sequence of registrations, removals, lookups and requests within the bounds, arbitrary names",
 "Tests register one handler per service and never a second one under the same or a similar name.",
 [SU,CH,SV],[("handler table","src/subchannel.rs: register_handler, unregister, get_handler"),("subchannel table","src/channel.rs: subchannel, create_subchannel; src/server.rs: get_subchannel")],state=[("handlers","endpoint to handler","src/subchannel.rs: SubChannel"),("subchannels","service to subchannel","src/channel.rs: TChannel")],observe=["which handler ran","results of registration"])
p("C18","Messages and their arguments convert without loss, or with an error",
 "A raw or json message converts to arguments of its own scheme and back to an equal message. Arguments of another scheme, or which are not valid text or json (for json also missing ones), are refused with an error and never misread.",
 ["inputs"],"all texts, bodies and json values within the bounds, arbitrary argument bytes, all scheme names",
 "The tests convert one message of each kind and never a damaged one.",
 [ME,RA,JS,HD],[("raw conversions","src/messages/raw.rs: TryFrom"),("json conversions","src/messages/json.rs: TryFrom"),("scheme names","src/frames/headers.rs: ArgSchemeValue")],observe=["converted message","arguments","errors"])
p("C19","Connections are pooled per host, bounded, and replaced when broken",
 "Calls to one host share pooled connections: a free one is reused, never more than the configured number is open at once, and calls to a host reach only that host. A connection which broke is not handed out again once the loss is known, so later calls work over a new one; one older than the configured lifetime is replaced and closed, after the calls which still wait on it; a host which cannot be reached gives an error.",
 ["histories","schedules","fault_sequences","configurations"],"every sequence of calls and losses within the bounds, concurrent calls at every schedule, limits of 1 and 2",
 "Tests make a few calls over one healthy connection.",
 [PO,CN,SU],[("pool per address","src/connection/pool.rs: ConnectionPools::get"),("connection manager","src/connection/pool.rs: ConnectionManager (connect, is_valid, has_broken)")],state=[("pools","address to pool","src/connection/pool.rs: ConnectionPools")],observe=["connections opened per host","results of calls"])
p("C20","The server can be started, stopped and restarted, and outlives its clients",
 "Starting a running server is refused, stopping a stopped one is harmless, after a stop nothing accepts new connections and after the next start requests are served again. Requests over connections which were already accepted are still answered when it stops. A client which goes away at any moment, even before it is accepted, affects no other client.",
 ["histories","schedules","crash_points"],"every sequence of starts and stops within the bounds, settled or not in between, clients leaving at every byte",
 "The tests start a server once per test.",
 [CH,SV],[("server handle","src/channel.rs: start_server, shutdown_server"),("task per connection","src/server.rs: Server::run")],state=[("server_handle","the running server task","src/channel.rs: TChannel")],observe=["results of start and stop","connections accepted","requests served"])
p("C21","Pings are answered, and a tested connection which fails its ping is replaced",
 "A ping request to a server is answered with a ping response under its id at any point of other traffic and disturbs none of it. When connections are tested before use, one is used only if its ping was answered by a ping response; otherwise it is dropped and a new one is made.",
 ["inputs","schedules","fault_sequences"],"all ids, every position among the frames of other requests, answers of any frame type with any payload within the bound, the end of the connection",
 "The tests run with the connection test off, and never send a ping.",
 [SV,PO],[("ping answer","src/server.rs: dispatch_frame"),("connection test","src/connection/pool.rs: is_valid, ping")],observe=["frames on the wire","connections opened"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
import jsonschema
for x in P:
    jsonschema.validate(x,s); assert x["statement"].count(". ")<=2,x["id"]
