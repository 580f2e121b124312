"""What gets executed for each property."""

TRUSTED = [
    "the LLVM IR emitted by rustc (opt-level 1, debug assertions and overflow checks on) stands for the code of the crate",
    "engine/ (own symbolic executor of LLVM IR) and z3; sampled paths and every counterexample are replayed by a native build",
    "the environment is modelled: models/tokio keeps tokio's sync primitives and I/O traits but replaces the scheduler, timers and sockets by a single threaded model",
]


def job(group, entry, *params, tier="quick", limit=100, tlimit=600, covers=(), **kw):
    return dict(group=group, entry=entry, params=list(params), tier=tier, limit=limit, tlimit=tlimit, covers=list(covers), **kw)


CHECKS = {}

CHECKS["C01"] = dict(
    bounds="id: all 2^32; type: all 2^8; payloads of 0, 1, 2, 5, 16 and 40 (thorough: 256) arbitrary bytes, after 0 or 3 arbitrary bytes in the buffer and followed by 0..17; decoding: any buffer of 0..24 (thorough: 64) bytes",
    jobs=[job("frames", "frame_roundtrip", n, p, t, covers=["roundtrip"]) for n, p, t in ((0, 0, 0), (1, 3, 2), (2, 0, 17), (5, 3, 1), (16, 0, 0), (40, 3, 3))]
    + [job("frames", "frame_roundtrip", 256, 3, 17, covers=["roundtrip"], tier="thorough")]
    + [job("frames", "frame_decode_any", n, covers=(["frame"] if n >= 16 else []) + (["rejected"] if n >= 2 else []) + ["incomplete"]) for n in (0, 1, 2, 3, 15, 16, 17, 18, 24)]
    + [job("frames", "frame_decode_any", n, tier="thorough", covers=["frame", "rejected", "incomplete"]) for n in (32, 33, 64)],
)

CHECKS["C02"] = dict(
    bounds="two frames with payloads of 0..4 (thorough: ..6) arbitrary bytes, any ids; every pair (thorough: triple) of read sizes, every pair of arrival sizes, every point at which the stream ends; one malformed header (any size below 16 or any unknown type) between two frames with every cut; written frames under every pair of write sizes and under connections which hold 1 or 7 bytes",
    jobs=[
        job("stream", "stream_read", 2, 3, 2, covers=["all"]),
        job("stream", "stream_read", 0, 1, 2, covers=["all"]),
        job("stream", "stream_read", 1, 99, 2, 1, 1, covers=["all", "truncated"]),
        job("stream", "stream_read", 2, 1, 1, 0, 1, covers=["all", "truncated"]),
        job("stream", "stream_read", 2, 1, 2, 1, 0, covers=["all"]),
        job("stream", "stream_malformed", 2, 1, covers=["malformed"]),
        job("stream", "stream_malformed", 0, 2, covers=["malformed"]),
        job("stream", "stream_write", 3, 2, 2, 0, covers=["written"]),
        job("stream", "stream_write", 3, 2, 1, 7, covers=["written"]),
        job("stream", "stream_write", 0, 5, 1, 1, covers=["written"]),
        job("stream", "stream_big", 8200, 40, 1, covers=["all"]),
        job("stream", "stream_big", 40000, 40, 1, covers=["all"]),
        job("stream", "stream_read", 2, 1, 2, 1, 1, tier="thorough", covers=["all", "truncated"]),
        job("stream", "stream_read", 4, 4, 3, tier="thorough", covers=["all"]),
        job("stream", "stream_read", 6, 2, 2, 0, 1, tier="thorough", covers=["all", "truncated"]),
        job("stream", "stream_malformed", 6, 2, tier="thorough", covers=["malformed"]),
        job("stream", "stream_write", 6, 6, 3, 0, tier="thorough", covers=["written"]),
        job("stream", "stream_write", 6, 6, 2, 3, tier="thorough", covers=["written"]),
    ],
)

LIM = ((255,), (256,), (65535,), (65536,), (254, 1), (256, 1), (255, 2), (258, 2), (252, 3), (256, 3), (65534, 1), (65536, 1), (65535, 2), (65538, 2), (65536, 3))
CHECKS["C03"] = dict(
    bounds="payload lengths 0..3, 250..261, 65515..65522, 65536..65541, 131056..131059 with any id and marked bytes; args of one payload with lengths in windows of up to 100 around the frame limit and the limits of their length fields; strings of 255, 256, 65535 and 65536 bytes",
    jobs=[job("frames", "frame_limit", b, w, p, covers=c) for b, w, p, c in ((0, 4, 0, ["written"]), (250, 12, 1, ["written"]), (65515, 8, 2, ["written", "refused"]), (65536, 6, 0, ["refused"]), (131056, 4, 0, ["refused"]))]
    + [job("frames", "frame_limit", b, 400, 1, tier="thorough") for b in (0, 400, 65200, 65500, 130900, 131072)]
    + [job("frames", "frame_oversize_stream", n, covers=["kept"]) for n in (0, 16, 70000)]
    + [job("payloads", "enc_limits", *a, covers=["limits"]) for a in LIM]
    + [job("payloads", "enc_args_limit", *a, covers=c) for a, c in (((65505, 10, 1, 1), ["written", "refused"]), ((65470, 50, 5, 5), ["written", "refused"]), ((65460, 20, 3, 2), ["written", "refused"]), ((65530, 12, 0, 0), ["refused"]), ((65536, 3, 0, 0), ["refused"]), ((32700, 100, 32700, 70), ["written", "refused"]), ((131072, 4, 65536, 65536), ["refused"]))]
    + [job("payloads", e, *a, covers=["roundtrip"]) for e, a in (("enc_error", (4,)), ("enc_cancel", (4,)), ("enc_init", (1, 4, 2)), ("enc_request", (4, 1, 3, 2, 123)), ("enc_response", (1, 3, 3, 321)))],
)

C04E = [("enc_init", (0, 0, 0)), ("enc_init", (1, 2, 3)), ("enc_init", (2, 2, 1)), ("enc_request", (0, 0, 0, 0, 1)), ("enc_request", (3, 1, 2, 2, 123)), ("enc_request", (1, 2, 1, 1, 921)), ("enc_request", (4, 0, 0, 0, 999)),
        ("enc_response", (0, 0, 0, 1)), ("enc_response", (1, 2, 3, 321)), ("enc_response", (2, 2, 1, 92)), ("enc_continue", (1,)), ("enc_continue", (9,)), ("enc_continue", (12,)), ("enc_continue", (341,)), ("enc_cancel", (0,)), ("enc_cancel", (4,)), ("enc_claim", ()), ("enc_error", (0,)), ("enc_error", (4,))]
C04T = [("enc_init", (2, 4, 5)), ("enc_init", (1, 4, 8)), ("enc_request", (4, 2, 3, 3, 456)), ("enc_request", (3, 2, 4, 4, 888)), ("enc_response", (2, 3, 4, 678)), ("enc_continue", (888,)), ("enc_cancel", (5,)), ("enc_error", (5,))]
CHECKS["C04"] = dict(
    bounds="all values of flags, codes, ttl, tracing, checksum type and value; strings of 0..4 (thorough: ..8) arbitrary valid UTF-8 or ASCII bytes; 0..2 headers; 1..3 args of 0..4 (thorough: ..8) arbitrary bytes",
    jobs=[job("payloads", e, *p, covers=["roundtrip"]) for e, p in C04E] + [job("payloads", e, *p, tier="thorough", covers=["roundtrip"]) for e, p in C04T]
    + [job("payloads", "enc_limits", n, covers=["limits"]) for n in (255, 256, 65535, 65536)],
)

AR = ["accepted", "rejected"]
CHECKS["C05"] = dict(
    bounds="arbitrary bytes: frame buffers of 0..24 (thorough: 64) bytes; payloads of every length listed per decoder, up to 37 bytes (thorough: 40); reassembly of up to 2 arbitrary frames (thorough: 3) with any type and payloads cut anywhere; answers of a peer and requests of a client made of arbitrary bytes",
    jobs=[job("frames", "frame_decode_any", n) for n in (0, 1, 2, 3, 15, 16, 17, 24)]
    + [job("payloads", "dec_init", n, 0, 0) for n in (0, 1, 2, 3, 4, 5, 6, 7, 8, 11)]
    + [job("payloads", "dec_request", n, 0, 0) for n in (0, 1, 4, 5, 12, 13, 28, 29, 30, 31, 32, 33, 34, 35, 36)]
    + [job("payloads", "dec_response", n, 0, 0) for n in (0, 1, 2, 3, 26, 27, 28, 29, 30, 31, 32, 33)]
    + [job("payloads", "dec_continue", n, 0, 0) for n in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10)]
    + [job("payloads", "dec_cancel", n, 0, 0) for n in (0, 3, 4, 28, 29, 30, 31, 32, 33)]
    + [job("payloads", "dec_claim", n, 0, 0) for n in (0, 3, 4, 11, 28, 29, 30)]
    + [job("payloads", "dec_error", n, 0, 0) for n in (0, 1, 2, 25, 26, 27, 28, 29, 31)]
    + [job("client", "cl_wild", *a, covers=["error"]) for a in ((0, 0, 0), (1, 0, 0), (28, 0, 0), (31, 0, 0), (3, 0, 1), (6, 1, 0), (9, 1, 0))]
    + [job("server", "srv_wild", *a, covers=["error frame"]) for a in ((0, 0, 0), (3, 0, 0), (30, 0, 0), (6, 0, 1), (6, 0, 2), (4, 0, 3), (6, 1, 0), (9, 1, 0), (3, 2, 0))]
    + [job("frames", "frame_decode_any", n, tier="thorough") for n in (32, 64)]
    + [job("payloads", "dec_init", n, 0, 0, tier="thorough") for n in (12, 13, 14)]
    + [job("payloads", "dec_request", n, 0, 0, tier="thorough") for n in (37, 38, 39)]
    + [job("payloads", "dec_response", n, 0, 0, tier="thorough") for n in (34, 35, 36)]
    + [job("payloads", "dec_continue", n, 0, 0, tier="thorough") for n in (12, 14, 20)]
    + [job("payloads", "dec_cancel", n, 0, 0, tier="thorough") for n in (35, 37, 39)]
    + [job("payloads", "dec_error", n, 0, 0, tier="thorough") for n in (33, 36, 38)]
    + [job("client", "cl_wild", *a, tier="thorough") for a in ((33, 0, 0), (12, 1, 0))]
    + [job("server", "srv_wild", *a, tier="thorough") for a in ((33, 0, 0), (8, 0, 3), (8, 0, 2), (12, 1, 0))],
)

CHECKS["C06"] = dict(
    bounds="arbitrary payloads against an independent reader of the protocol: init up to 12 bytes (14 of ASCII); call requests with 9 (thorough: 10; 12 of ASCII) arbitrary bytes after the tracing, responses likewise; continuations up to 14 (thorough: 20) bytes; cancel, claim and error up to 37 bytes",
    jobs=[
        job("payloads", "dec_init", 12, 0, 0, covers=AR), job("payloads", "dec_init", 6, 0, 0, covers=AR), job("payloads", "dec_init", 14, 0, 1, covers=AR),
        job("payloads", "dec_request", 9, 1, 0, covers=AR), job("payloads", "dec_request", 7, 1, 0, covers=AR), job("payloads", "dec_request", 9, 1, 1, covers=AR), job("payloads", "dec_request", 36, 0, 0, covers=AR),
        job("payloads", "dec_response", 8, 1, 0, covers=AR), job("payloads", "dec_response", 9, 1, 1, covers=AR), job("payloads", "dec_response", 10, 1, 1, covers=AR), job("payloads", "dec_response", 32, 0, 0, covers=AR),
        job("payloads", "dec_continue", 6, 0, 0, covers=AR), job("payloads", "dec_continue", 9, 0, 0, covers=AR), job("payloads", "dec_continue", 14, 0, 0, covers=AR),
        job("payloads", "dec_cancel", 34, 0, 0, covers=AR), job("payloads", "dec_claim", 30, 0, 0, covers=AR), job("payloads", "dec_error", 31, 0, 0, covers=AR),
        job("payloads", "dec_init", 18, 0, 1, tier="thorough", covers=AR),
        job("payloads", "dec_request", 12, 1, 1, tier="thorough", covers=AR), job("payloads", "dec_request", 10, 1, 0, tier="thorough", covers=AR),
        job("payloads", "dec_response", 12, 1, 1, tier="thorough", covers=AR), job("payloads", "dec_response", 10, 1, 0, tier="thorough", covers=AR),
        job("payloads", "dec_continue", 20, 0, 0, tier="thorough", covers=AR),
        job("payloads", "dec_cancel", 37, 0, 0, tier="thorough", covers=AR), job("payloads", "dec_error", 36, 0, 0, tier="thorough", covers=AR),
    ],
)

FRAG = [(3, 65440, 1, 1, 80, 1), (3, 5, 65440, 1, 80, 2), (3, 5, 1, 65440, 80, 4), (1, 0, 0, 0, 4, 7), (3, 65480, 0, 0, 20, 1), (3, 0, 65450, 0, 60, 2), (3, 130900, 3, 0, 100, 1), (200, 30000, 35000, 65000, 12, 6), (255, 65100, 10, 10, 90, 1), (120, 65200, 10, 10, 90, 1, 3), (200, 30000, 34900, 65000, 60, 2, 2)]
FRAGT = [(3, 65430, 65500, 3, 40, 3), (3, 65430, 1, 65500, 40, 5), (3, 4, 65430, 65500, 40, 6), (0, 130800, 100, 130900, 200, 1), (10, 65440, 0, 196500, 80, 5)]


def frag(e, tier, ps):
    return [job("msg", e, *p, tier=tier) for p in ps]


STEPS = [job("steps", "frag_step", n, 40, covers=["cut", "end"] + (["marked"] if n > 1 else [])) for n in (1, 2, 3)]
CHECKS["C07"] = dict(
    bounds="three args with lengths in windows (4..100 lengths each, thorough: 200, up to two args at once) around every boundary of one, two and three frames, empty args, services of 0..255 bytes; requests and responses of both codes; each single frame of a message with 1..3 args left of any length below 2^40",
    jobs=frag("frag_request", "quick", FRAG) + frag("frag_response", "quick", FRAG) + STEPS + frag("frag_request", "thorough", FRAGT) + frag("frag_response", "thorough", FRAGT),
)

CHECKS["C08"] = dict(
    bounds="arbitrary legal splits: up to 3 frames of up to 2 fragments (thorough: 3 frames, 3 fragments) of 0..2 arbitrary bytes each; own fragmentation reassembled for arg lengths in windows around every boundary of one, two and three frames; each single frame of its own with args of any length below 2^40",
    jobs=[job("msg", "defrag_request", 3, 1, 0, 2, covers=["complete", "too many args"]), job("msg", "defrag_response", 3, 1, 0, 2, covers=["complete", "not utf-8", "too many args"]), job("msg", "defrag_request", 2, 2, 0, 3, covers=["complete"]), job("msg", "defrag_request", 1, 3, 0, 3, covers=["complete"])]
    + frag("frag_request", "quick", FRAG) + frag("frag_response", "quick", FRAG) + STEPS
    + [job("msg", "defrag_request", 3, 2, 0, 2, tier="thorough", covers=["complete"]), job("msg", "defrag_request", 4, 1, 0, 2, tier="thorough", covers=["complete"]), job("msg", "defrag_response", 2, 2, 0, 3, tier="thorough", covers=["complete"]), job("msg", "defrag_request", 3, 1, 0, 3, tier="thorough", covers=["complete"])]
    + frag("frag_request", "thorough", FRAGT) + frag("frag_response", "thorough", FRAGT),
)

CHECKS["C09"] = dict(
    bounds="sequences of up to 2 frames (thorough: 3) of up to 2 fragments of 0..1 bytes, each with any announced continuation, any checksum type, any frame type, payloads cut by 1..2 bytes, a missing end, or more args than a message has; every arg scheme; messages whose remaining frames are not there yet",
    jobs=[
        job("msg", "defrag_request", 2, 1, 1, 2, covers=["complete", "error"]),
        job("msg", "defrag_response", 2, 1, 1, 2, covers=["complete", "error"]),
        job("msg", "defrag_request", 3, 0, 1, 1, covers=["complete", "error"]),
        job("msg", "defrag_response", 3, 0, 1, 1, covers=["complete", "error"]),
        job("msg", "defrag_request", 2, 0, 1, 3, covers=["complete", "error", "too many args"]),
        job("msg", "defrag_response", 2, 0, 1, 3, covers=["complete", "error", "too many args"]),
        job("msg", "defrag_request", 2, 1, 0, 3, covers=["complete", "too many args"]),
        job("msg", "defrag_response", 2, 1, 0, 3, covers=["complete", "too many args"]),
        job("msg", "defrag_first", 0, covers=["complete", "waits", "scheme"]),
        job("msg", "defrag_first", 1, covers=["complete", "waits", "scheme"]),
        job("msg", "defrag_request", 3, 1, 1, 1, tier="thorough", covers=["complete", "error"]),
        job("msg", "defrag_request", 2, 1, 1, 3, tier="thorough", covers=["complete", "error"]),
        job("msg", "defrag_response", 3, 1, 1, 1, tier="thorough", covers=["complete", "error"]),
        job("msg", "defrag_request", 4, 0, 1, 1, tier="thorough", covers=["complete", "error"]),
    ],
)

CL, SV = "client", "server"
CHECKS["C10"] = dict(
    bounds="one connection; 1..3 calls in flight (client side) or 1..2 requests with arbitrary ids (server side), responses and requests of 1..3 frames (thorough: 4) in every interleaving of their frames, with the endpoint running or not in between; up to 1 (thorough: 2) delayed wakeups and 1 preemption of the scheduler at every point; frame buffers of 1, 2 and 4; 1..2 stray frames of any type and id; bodies of 2 arbitrary bytes",
    jobs=[
        job(CL, "cl_route", 2, 2, 0, 0, 1, 1, covers=["ok", "error response"]),
        job(CL, "cl_route", 2, 3, 0, 0, 2, 1, covers=["ok", "error response"], cost=20),
        job(CL, "cl_route", 3, 2, 0, 0, 4, 0, covers=["ok", "error response"]),
        job(CL, "cl_route", 3, 1, 1, 0, 4, 0, covers=["ok", "error response"]),
        job(CL, "cl_route", 2, 1, 0, 1, 4, 0, covers=["ok", "error response"]),
        job(CL, "cl_stray", 1, 2, 0), job(CL, "cl_stray", 1, 2, 1),
        job(SV, "srv_route", 2, 3, 1, 0, 0, 1, 1, 1, cost=10),
        job(SV, "srv_route", 2, 2, 2, 1, 0, 2, 2, 0),
        job(SV, "srv_gate", 3, 0, 1, covers=["out of order"]), job(SV, "srv_gate", 2, 1, 2, covers=["out of order"]),
        job(SV, "srv_two", 2, 0, covers=["both"]),
        job("e2e", "e2e_calls", 1, 2, 8, 0, 0, 1, 1, covers=["ok", "error response", "error"]),
        job("e2e", "e2e_calls", 2, 1, 4, 0, 0, 1, 1, covers=["ok", "error response"]),
        job("e2e", "e2e_calls", 1, 2, 1, 1, 0, 1, 1, covers=["ok"]),
        job("e2e", "e2e_calls", 1, 2, 1, 0, 1, 1, 1, covers=["ok"]),
        job("e2e", "e2e_calls", 1, 3, 1, 1, 0, 2, 1, 2, covers=["ok"]),
        job("e2e", "e2e_big", 70000, 70000, 0, 1, 1, covers=["ok"]),
        job(CL, "cl_route", 2, 2, 1, 1, 1, 0, tier="thorough", covers=["ok", "error response"]),
        job(CL, "cl_route", 2, 4, 0, 0, 2, 1, tier="thorough", covers=["ok", "error response"]),
        job(CL, "cl_route", 3, 2, 1, 0, 2, 0, tier="thorough", covers=["ok", "error response"]),
        job(CL, "cl_route", 4, 1, 1, 0, 2, 0, tier="thorough", covers=["ok", "error response"]),
        job(CL, "cl_stray", 2, 2, 0, tier="thorough"),
        job(SV, "srv_route", 2, 3, 1, 1, 0, 1, 1, 0, tier="thorough"),
        job(SV, "srv_route", 3, 2, 1, 0, 0, 1, 1, 0, tier="thorough"),
        job(SV, "srv_two", 2, 1, tier="thorough", covers=["both"]),
        job("e2e", "e2e_calls", 1, 2, 2, 2, 0, 2, 2, tier="thorough", covers=["ok"]),
        job("e2e", "e2e_calls", 2, 2, 2, 1, 0, 1, 1, tier="thorough", covers=["ok"]),
        job("e2e", "e2e_calls", 1, 2, 1, 1, 1, 1, 1, tier="thorough", covers=["ok"]),
        job("e2e", "e2e_calls", 1, 3, 1, 0, 1, 1, 1, 2, tier="thorough", covers=["ok"]),
    ],
)

CHECKS["C12"] = dict(
    bounds="1..2 requests with arbitrary ids (frames: 1..4) to twelve targets (working, failing in three ways, synchronous or asynchronous, unknown endpoint or service); a bad frame (continuation of nothing, a request with a used id, a broken continuation, an unknown scheme, an endpoint which is no text) at any point next to a request of 1..3 frames; first frames and continuations of arbitrary bytes as in C05; every one followed by a request which has to work",
    jobs=[
        job(SV, "srv_route", 1, 4, 12, 0, 0, 1, 1, 1, covers=["ok", "error response", "error frame"]),
        job(SV, "srv_route", 2, 2, 3, 0, 0, 1, 1, 0, covers=["ok", "error response", "error frame"]),
        job(SV, "srv_route", 2, 1, 12, 0, 0, 1, 1, 0, covers=["ok", "error response", "error frame"]),
        job(SV, "srv_bad", 2, 0, covers=["refused", "dropped"]), job(SV, "srv_bad", 3, 0, covers=["refused", "dropped"]),
    ]
    + [job(SV, "srv_wild", *a, covers=["error frame"]) for a in ((0, 0, 0), (3, 0, 0), (30, 0, 0), (6, 0, 1), (6, 0, 2), (4, 0, 3), (6, 1, 0), (9, 1, 0), (3, 2, 0))]
    + [job(SV, "srv_bad", 3, 1, tier="thorough"), job(SV, "srv_route", 2, 2, 3, 1, 0, 1, 1, 0, tier="thorough"), job(SV, "srv_wild", 8, 0, 3, tier="thorough"), job(SV, "srv_wild", 33, 0, 0, tier="thorough")],
)

CHECKS["C13"] = dict(
    bounds="synchronous and asynchronous handlers which succeed or fail in each of the three ways, header and 2 body bytes arbitrary, requests of 1..2 frames; on the client: ok and error responses of 1..3 frames and error frames of every code, for 1..2 calls in any order",
    jobs=[
        job(SV, "srv_route", 1, 2, 12, 0, 0, 1, 1, 0, covers=["ok", "error response", "error frame"]),
        job(SV, "srv_route", 2, 1, 12, 0, 0, 1, 1, 0, covers=["ok", "error response", "error frame"]),
        job(CL, "cl_route", 1, 3, 0, 0, 4, 1, covers=["ok", "error response"]),
        job(CL, "cl_route", 2, 1, 0, 0, 4, 0, covers=["ok", "error response"]),
        job(CL, "cl_error", 1, 0, covers=["error"]), job(CL, "cl_error", 2, 0, covers=["error"]),
        job("e2e", "e2e_calls", 1, 2, 8, 0, 0, 1, 1, covers=["ok", "error response", "error"]),
        job("sub", "sub_history", 2, 1, covers=["answered", "failed"]),
        job("e2e", "e2e_calls", 1, 1, 8, 1, 0, 1, 1, tier="thorough", covers=["ok", "error response", "error"]),
        job(CL, "cl_error", 2, 1, tier="thorough", covers=["error"]),
        job(SV, "srv_route", 2, 2, 12, 0, 0, 1, 1, 0, tier="thorough", covers=["ok", "error response", "error frame"]),
    ],
)

AH = ["accepted", "refused"]
CHECKS["C14"] = dict(
    bounds="any version, any frame type, payloads of 2..8 (thorough: 10) arbitrary bytes, or the end of the stream in place of the handshake frame, in both roles; a call request before and after the handshake",
    jobs=[job(CL, "cl_handshake", 0, covers=AH), job(CL, "cl_handshake", 1, covers=AH), job(CL, "cl_handshake", 3, covers=["refused"]), job(SV, "srv_handshake", 0, covers=AH), job(SV, "srv_handshake", 1, covers=AH), job(SV, "srv_handshake", 3, covers=["refused"])]
    + [job(g, e, 2, n, covers=AH if n in (4, 8) else ["refused"]) for g, e in ((CL, "cl_handshake"), (SV, "srv_handshake")) for n in (0, 2, 3, 4, 6, 8)]
    + [job(g, e, 2, 10, tier="thorough", covers=AH) for g, e in ((CL, "cl_handshake"), (SV, "srv_handshake"))],
)

CHECKS["C15"] = dict(
    bounds="1..2 calls; the connection ends (orderly, by reset, or with the peer gone) at every byte of responses of up to 2 frames, with or without the client running before; up to 1 delayed wakeup; then another call; 1..2 calls which start while the connection is lost, up to 1 (thorough: 2) delay, preemption and race at an atomic operation; on the server: the client goes away at every byte of 1..2 requests of up to 2 frames",
    jobs=[
        job(CL, "cl_loss", 1, 2, 0, 2, 1, covers=["lost", "complete", "again"], cost=8),
        job(CL, "cl_loss", 2, 1, 0, 2, 0, covers=["lost"], cost=6),
        job(CL, "cl_loss", 1, 1, 1, 2, 1, covers=["lost", "again"], cost=6),
        job(SV, "srv_close", 1, 2, 0, covers=["answered", "cut"]),
        job(SV, "srv_close", 2, 1, 0, covers=["answered", "cut"]),
        job(CL, "cl_race", 1, 1, 1, 1, covers=["failed"]), job(CL, "cl_race", 2, 1, 0, 1, covers=["failed"]),
        job(CL, "cl_race", 1, 2, 2, 2, tier="thorough", covers=["failed"]), job(CL, "cl_race", 2, 2, 1, 1, tier="thorough", covers=["failed"]),
        job(CL, "cl_loss", 2, 1, 1, 2, 0, tier="thorough", covers=["lost"]),
        job(CL, "cl_loss", 1, 2, 1, 2, 1, tier="thorough", covers=["lost", "complete", "again"]),
        job(CL, "cl_loss", 2, 2, 0, 2, 0, tier="thorough", covers=["lost"]),
        job(SV, "srv_close", 2, 2, 0, tier="thorough", covers=["answered", "cut"]),
    ],
)

CHECKS["C16"] = dict(
    bounds="up to 2 requests of up to 3 frames interleaved in every way with 1..2 handlers at once and frame buffers of 1..2; up to 5 (thorough: 6) requests for handlers which end in rounds, limits of 0 (none), 1 and 2; while a handler runs, every sequence of 2..3 (thorough: 4) of: registrations, new subchannels, requests to other endpoints and connections, a second request to the same endpoint; up to 1 delayed wakeup at every point",
    jobs=[
        job(SV, "srv_route", 2, 3, 1, 0, 0, 1, 1, 1, cost=10),
        job(SV, "srv_route", 2, 2, 2, 1, 0, 2, 2, 0),
        job(SV, "srv_tasks", 1, 3, 0, 1, covers=["full", "all"]), job(SV, "srv_tasks", 2, 4, 0, 2, covers=["full", "all"]), job(SV, "srv_tasks", 0, 3, 0, 1, covers=["all"]), job(SV, "srv_tasks", 2, 5, 0, 1, covers=["full", "all"]),
        job(SV, "srv_hold", 2, 0, 0, covers=["released"]), job(SV, "srv_hold", 3, 0, 3, covers=["released"]),
        job(SV, "srv_hold", 3, 1, 0, tier="thorough", covers=["released"]), job(SV, "srv_hold", 4, 0, 3, tier="thorough", covers=["released"]),
        job(CL, "cl_route", 2, 2, 0, 0, 1, 1, covers=["ok", "error response"]),
        job("e2e", "e2e_calls", 1, 2, 1, 1, 0, 1, 1, covers=["ok"]),
        job("e2e", "e2e_calls", 1, 2, 1, 0, 1, 1, 1, covers=["ok"]),
        job("e2e", "e2e_calls", 1, 2, 1, 0, 0, 1, 1, 1, 1, covers=["ok"]),
        job("e2e", "e2e_calls", 1, 2, 1, 1, 0, 1, 1, 1, 40, covers=["ok"]),
        job("e2e", "e2e_self", 1, 0, covers=["ok"]), job("e2e", "e2e_self", 0, 1, covers=["ok"]),
        job("e2e", "e2e_big", 70000, 140000, 0, 1, 1, 7000, covers=["ok"]),
        job("e2e", "e2e_big", 70000, 70000, 1, 1, 1, 0, covers=["ok"]),
        job("e2e", "e2e_big", 70000, 70000, 1, 1, 1, 50000, tier="thorough", covers=["ok"]),
        job("e2e", "e2e_big", 140000, 70000, 2, 1, 1, 0, tier="thorough", covers=["ok"]),
        job("e2e", "e2e_calls", 1, 2, 1, 1, 0, 1, 1, 1, 7, tier="thorough", covers=["ok"]),
        job("e2e", "e2e_calls", 1, 3, 1, 2, 0, 1, 1, tier="thorough", covers=["ok"]),
        job("e2e", "e2e_calls", 1, 2, 1, 0, 2, 1, 1, tier="thorough", covers=["ok"]),
        job(SV, "srv_tasks", 1, 3, 1, 1, tier="thorough", covers=["full", "all"]),
        job(SV, "srv_tasks", 2, 6, 0, 1, tier="thorough", covers=["full", "all"]),
        job(SV, "srv_route", 2, 3, 1, 1, 0, 1, 1, 0, tier="thorough"),
    ],
)

CHECKS["C17"] = dict(
    bounds="every sequence of 3 (thorough: 4) registrations, unregistrations and requests with names of 1..2 arbitrary bytes; requests with endpoints of 0..3 arbitrary bytes and 0..4 args; every sequence of 2 (thorough: 3) registrations and subchannel lookups (2 services, 3 endpoints including the empty one, synchronous and asynchronous handlers), followed by a request to every service and endpoint; 2..3 registrations of one endpoint at once, under up to 2 delays and 2 preemptions; requests with arbitrary ids to twelve targets",
    jobs=[
        job(SV, "srv_register", 1, covers=["registered", "rejected"]), job(SV, "srv_register", 2, covers=["registered", "rejected"]),
        job(SV, "srv_route", 2, 1, 12, 0, 0, 1, 1, 0, covers=["ok", "error response", "error frame"]),
        job(SV, "srv_concurrent", 2, 1, 1, covers=["one"]), job(SV, "srv_concurrent", 2, 2, 2, covers=["one"]), job(SV, "srv_concurrent", 3, 1, 1, covers=["one"]),
        job(SV, "srv_concurrent", 3, 2, 2, tier="thorough", covers=["one"]),
        job(SV, "srv_hold", 2, 0, 0, covers=["released"]),
        job("sub", "sub_history", 3, 1, covers=["registered", "taken", "unregistered", "answered", "failed", "unknown"]),
        job("sub", "sub_history", 3, 2, covers=["registered", "taken", "unregistered"]),
        job("sub", "sub_any", covers=["known", "unknown"]),
        job(SV, "srv_register", 3, tier="thorough", covers=["registered", "rejected"]),
        job("sub", "sub_history", 4, 1, tier="thorough", covers=["registered", "taken", "unregistered"]),
    ],
)

CHECKS["C20"] = dict(
    bounds="every sequence of 3..4 (thorough: 6) starts and shutdowns, settled or not in between, up to 2 (thorough: 3) delayed wakeups; clients which go away at any byte while others stay; two connections with equal ids; 1 (thorough: 2) clients which stop at any byte of their handshake while another one is served",
    jobs=[
        job(SV, "srv_life", 3, 0, covers=["up", "down"]), job(SV, "srv_life", 3, 2, covers=["up", "down"]), job(SV, "srv_life", 4, 1, covers=["up", "down"]),
        job(SV, "srv_close", 1, 2, 0, covers=["answered", "cut"]), job(SV, "srv_two", 2, 0, covers=["both"]),
        job("e2e", "e2e_restart", 0, covers=["ok"]), job("e2e", "e2e_restart", 1, covers=["ok"]),
        job(SV, "srv_silent", 1, 0, covers=["served"]), job(SV, "srv_silent", 1, 1, covers=["served"]), job(SV, "srv_silent", 2, 0, tier="thorough", covers=["served"]),
        job(SV, "srv_life", 6, 0, tier="thorough", covers=["up", "down"]), job(SV, "srv_life", 5, 3, tier="thorough", covers=["up", "down"]), job("e2e", "e2e_restart", 2, tier="thorough", covers=["ok"]),
    ],
)

CHECKS["C21"] = dict(
    bounds="1..2 pings with arbitrary ids at any point of a request of up to 2 (thorough: 3) frames; a tested connection whose ping is answered by any type of frame with 0..3 (thorough: 30) arbitrary bytes, or by the end of the connection, or which ended before; up to 1 delayed wakeup",
    jobs=[
        job(SV, "srv_ping", 2, 1, 0, covers=["pong"]), job(SV, "srv_ping", 2, 2, 0, covers=["pong"]), job(SV, "srv_ping", 1, 2, 1, covers=["pong"]),
        job("pool", "pool_test", 0, 0, 0, covers=["passed"]), job("pool", "pool_test", 0, 3, 0, covers=["passed"]),
        job("pool", "pool_test", 1, 0, 0, covers=["passed", "replaced"]), job("pool", "pool_test", 1, 3, 0, covers=["passed", "replaced"]),
        job("pool", "pool_test", 2, 0, 0, covers=["replaced"]), job("pool", "pool_test", 3, 0, 0, covers=["replaced"]), job("pool", "pool_test", 1, 0, 1, covers=["passed", "replaced"]),
        job(SV, "srv_ping", 3, 3, 0, tier="thorough", covers=["pong"]),
        job("pool", "pool_test", 2, 0, 1, tier="thorough", covers=["replaced"]), job("pool", "pool_test", 3, 0, 2, tier="thorough", covers=["replaced"]), job("pool", "pool_test", 1, 30, 0, tier="thorough", covers=["passed", "replaced"]),
    ],
)

CHECKS["C11"] = dict(
    bounds="every sequence of up to 4 (thorough: 5) registrations, deregistrations, frames and the end of the connection with arbitrary ids; 2..3 messages at once with up to 2 delays, 2 preemptions and 2 races between threads at atomic operations; 70000 further messages while one is in flight; requests on the wire as in C10",
    jobs=[
        job("ids", "ids_history", 3, covers=["registered", "duplicate", "deregistered", "passed", "stray", "open", "closed"]), job("ids", "ids_history", 4, covers=["registered", "duplicate", "deregistered", "passed", "stray", "open", "closed"]),
        job("ids", "ids_incoming", 4, covers=["new", "passed", "dropped", "open", "closed"]),
        job("ids", "ids_concurrent", 2, 2, 2, covers=["all"]), job("ids", "ids_concurrent", 3, 1, 2, covers=["all"]), job("ids", "ids_concurrent", 2, 1, 0, 2, covers=["all"]), job("ids", "ids_concurrent", 3, 0, 0, 2, covers=["all"]), job("ids", "ids_many", 70000, covers=["all"], opts={"steps": 400_000_000}, cost=10),
        job(CL, "cl_route", 3, 1, 0, 0, 4, 0), job(CL, "cl_route", 2, 1, 0, 1, 4, 0),
        job(CL, "cl_stray", 1, 2, 0), job(SV, "srv_bad", 2, 0), job(SV, "srv_two", 2, 0),
        job("ids", "ids_history", 5, tier="thorough"), job("ids", "ids_incoming", 5, tier="thorough"), job("ids", "ids_concurrent", 4, 2, 2, tier="thorough", covers=["all"]),
    ],
)

CHECKS["C18"] = dict(
    bounds="raw messages: endpoint, header and body of up to 4, 3 and 8 arbitrary (UTF-8) bytes; args of 1..3 arbitrary bytes, 0..4 of them, any scheme; json messages: one header and one body entry, keys and texts of 0..2 arbitrary (UTF-8) bytes, texts, numbers (-256..255, eight fractions), booleans, null, arrays, objects; json args of 0..3 (thorough: 4) arbitrary bytes; scheme names of 3..7 arbitrary bytes",
    jobs=[job("msgs", "raw_roundtrip", 0, 0, 0, covers=["roundtrip"]), job("msgs", "raw_roundtrip", 2, 2, 3, covers=["roundtrip"]), job("msgs", "raw_roundtrip", 4, 3, 8, covers=["roundtrip"])]
    + [job("msgs", "raw_any", n, covers=["accepted", "rejected"]) for n in (1, 2, 3)]
    + [job("msgs", "json_roundtrip", *a, covers=["roundtrip"]) for a in ((1, 1, 0, 9), (1, 1, 1, 2), (0, 0, 3, 9), (0, 1, 4, 5), (0, 0, 6, 7), (0, 2, 0, 9), (0, 1, 0, 0), (3, 0, 9, 9))]
    + [job("msgs", "json_any", n, covers=["rejected", "accepted"] if n else ["rejected"]) for n in (0, 1, 2, 3)]
    + [job("msgs", "scheme_any", n, covers=["known", "unknown"] if n in (3, 4, 6, 7) else ["unknown"]) for n in (0, 3, 4, 5, 6, 7)]
    + [job("e2e", "e2e_json", 1, 0, covers=["json", "error", "ok"])]
    + [job("msgs", "json_any", 4, tier="thorough"), job("msgs", "json_roundtrip", 0, 3, 0, 9, tier="thorough", covers=["roundtrip"]), job("msgs", "json_roundtrip", 0, 0, 3, 3, tier="thorough", covers=["roundtrip"]), job("e2e", "e2e_json", 1, 1, tier="thorough", covers=["json"]), job("msgs", "raw_any", 4, tier="thorough")],
)

CHECKS["C19"] = dict(
    bounds="1..3 calls at once with up to 1..2 connections, up to 1 delayed wakeup and 1 preemption, then further calls; every sequence of 3 calls to two hosts; every sequence of 4 calls and lost connections (1..2 connections; orderly or reset, seen before the next call or not); a host which never or only later listens",
    jobs=[
        job("pool", "pool_calls", 1, 1, 0, 0, 2, covers=["reused"]), job("pool", "pool_calls", 3, 2, 1, 0, 1, covers=["reused", "all connections"]), job("pool", "pool_calls", 2, 1, 1, 1, 1, covers=["reused"]),
        job("pool", "pool_hosts", 3, 0, covers=["ok"]), job("pool", "pool_hosts", 2, 1, covers=["ok"]),
        job("pool", "pool_history", 4, 1, 0, covers=["ended", "failed", "ok"]), job("pool", "pool_history", 3, 2, 0, covers=["ended", "failed", "ok"]), job("pool", "pool_history", 3, 1, 1, covers=["ended", "failed", "ok"]),
        job("pool", "pool_refused", 0, covers=["failed", "ok"]), job("pool", "pool_refused", 2, covers=["ok"]),
        job(CL, "cl_loss", 1, 1, 1, 2, 1, covers=["lost", "again"]),
        job("pool", "pool_calls", 3, 2, 1, 1, 0, tier="thorough", covers=["all connections"]), job("pool", "pool_calls", 4, 2, 1, 0, 1, tier="thorough", covers=["all connections"]), job("pool", "pool_hosts", 3, 1, tier="thorough"), job("pool", "pool_hosts", 4, 0, tier="thorough"),
        job("pool", "pool_history", 6, 1, 0, tier="thorough"), job("pool", "pool_history", 3, 2, 1, tier="thorough"), job("pool", "pool_history", 5, 2, 0, tier="thorough"),
    ],
)

# The same guarantees seen from the other end of a connection, through public items only.
W = "wire"


def wire(entry, *sets, tier="quick", covers=()):
    return [job(W, entry, *p, tier=tier, covers=covers) for p in sets]


SEND = [(1, 1, 1, 1, 65420, 60, 3), (1, 1, 65420, 60, 5, 1, 3), (65420, 60, 1, 1, 1, 1, 0), (1, 1, 0, 1, 130880, 60, 3), (1, 1, 0, 1, 65180, 60, 240)]
ANSWER = [(65420, 80, 0, 1, 3, 1), (3, 1, 65420, 80, 5, 1), (3, 1, 0, 1, 65420, 80), (3, 1, 0, 1, 130900, 60)]
SENDT = [(65400, 20, 130960, 20, 3, 1, 3), (1, 1, 65420, 40, 65440, 20, 3), (65420, 12, 65490, 12, 65490, 12, 9), (1, 1, 0, 1, 196380, 100, 3)]
ANSWERT = [(65420, 20, 65500, 20, 3, 1), (3, 1, 65420, 20, 65500, 20), (65420, 12, 65490, 12, 65490, 12), (1, 1, 0, 1, 196380, 100)]
MANY = ["answered", "refused", "incomplete"]
WIRE = {
    "C01": (wire("wire_cut", (0, 1, 0), (1, 1, 0), (0, 2, 7), covers=["answered"]) + wire("wire_back", (1, 2), covers=["answered"]),
            "frames of all kinds on connections of a client and a server"),
    "C02": (wire("wire_cut", (1, 2, 0), (2, 3, 5), (1, 2, 40), covers=["answered"]) + wire("wire_back", (1, 3), (2, 1), covers=["answered"]) + wire("wire_cut", (2, 1, 0), (3, 3, 5), tier="thorough", covers=["answered"]) + wire("wire_back", (2, 4), (3, 1), tier="thorough", covers=["answered"]),
            "the stream of a connection to a server (handshake, ping, request of 1..3 frames, ping) and to a client (response of 1..3 frames) cut at any 1..2 (thorough: 3) places, over connections which hold 5, 40 or any number of bytes"),
    "C03": (wire("wire_send", *SEND) + wire("wire_answer", *ANSWER) + wire("wire_send", *SENDT, tier="thorough") + wire("wire_answer", *ANSWERT, tier="thorough"),
            "whole requests and responses with args in windows of 60..80 lengths around one and two frames"),
    "C04": (wire("wire_fields", (0, 0), (2, 1), (4, 2), covers=["request", "response"]) + wire("wire_fields", (9, 3), tier="thorough", covers=["request", "response"]),
            "fields of requests and responses on the wire, with services of 0..4 (thorough: 9) and args of 0..2 (3) bytes"),
    "C05": (wire("wire_accept", (3, 0, 200), covers=MANY) + wire("wire_accept_back", (3, 0, 200), covers=MANY) + wire("wire_accept", (4, 0, 200), tier="thorough", covers=MANY) + wire("wire_accept_back", (4, 0, 200), tier="thorough", covers=MANY),
            "requests and responses in which any 3 (thorough: 4) adjoining bytes are arbitrary"),
    "C06": (wire("wire_accept", (1, 0, 200), (2, 0, 200), covers=MANY) + wire("wire_accept_back", (1, 0, 200), (2, 0, 200), covers=MANY) + wire("wire_accept", (3, 0, 200), (4, 0, 200), tier="thorough", covers=MANY) + wire("wire_accept_back", (3, 0, 200), (4, 0, 200), tier="thorough", covers=MANY),
            "requests to a server and responses to a client in which any 1..2 (thorough: 4) adjoining bytes are arbitrary"),
    "C07": (wire("wire_send", *SEND) + wire("wire_answer", *ANSWER) + wire("wire_send", *SENDT, tier="thorough") + wire("wire_answer", *ANSWERT, tier="thorough"),
            "messages on the wire with args in windows of 60..80 lengths around one and two frames"),
    "C08": (wire("wire_split", (1, 1, 0), (2, 2, 0), (1, 3, 0), covers=["answered"]) + wire("wire_split_back", (1, 1, 0), (2, 2, 0), (1, 3, 0), covers=["answered"]) + wire("wire_split", (3, 3, 0), (2, 4, 0), tier="thorough", covers=["answered"]) + wire("wire_split_back", (3, 3, 0), (2, 4, 0), tier="thorough", covers=["answered"]),
            "requests and responses on the wire cut anywhere into 2..4 (thorough: 5) frames"),
    "C09": (wire("wire_split", (1, 1, 1), (1, 2, 1), covers=["answered", "refused", "waits", "too many args"]) + wire("wire_split_back", (1, 1, 1), (1, 2, 1), covers=["answered", "refused", "waits", "too many args"]) + wire("wire_split", (1, 3, 1), (2, 2, 1), tier="thorough", covers=["answered", "refused", "waits", "too many args"]) + wire("wire_split_back", (1, 3, 1), (2, 2, 1), tier="thorough", covers=["answered", "refused", "waits", "too many args"]),
            "requests and responses on the wire in 2..3 (thorough: 4) frames cut anywhere, one of them with another type, a checksum, without its end, or followed by none"),
}
for _id, (_jobs, _text) in WIRE.items():
    CHECKS[_id]["jobs"] = CHECKS[_id]["jobs"] + _jobs
    CHECKS[_id]["bounds"] += "; " + _text

# Later additions: what comes after something went wrong, many headers, any counter.
SEQ = ["all", "refused"]
MORE = {
    "C02": ([job("stream", "stream_refused", 2, 3, 1, covers=["all", "refused"])], "3 frames of any of three sizes, one of which does not fit, written 2 at once"),
    "C03": ([job("stream", "stream_refused", *a, covers=["all", "refused"]) for a in ((4, 3, 0), (2, 3, 1), (1, 3, 0))] + [job("stream", "stream_refused", 3, 5, 0, tier="thorough", covers=["all", "refused"])]
            + [job("payloads", "enc_many", n, w, covers=c) for n, w, c in ((255, 1, ["roundtrip"]), (256, 1, ["refused"]), (255, 2, ["roundtrip"]), (256, 2, ["refused"]), (257, 1, ["refused"]), (300, 2, ["refused"]), (257, 0, ["roundtrip"]), (1, 0, ["roundtrip"]))],
            "0..300 headers; sequences of 3 (thorough: 5) frames of three sizes, one of which does not fit, written 1..4 at once"),
    "C04": ([job("payloads", "enc_many", n, w, covers=["roundtrip"]) for n, w in ((0, 0), (5, 1), (128, 1), (200, 2), (255, 1), (255, 2), (257, 0))] + [job("payloads", "enc_many", 1000, 0, tier="thorough", covers=["roundtrip"])],
            "up to 255 headers of calls and 257 (thorough: 1000) of init"),
    "C06": ([job("payloads", "enc_many", n, w, covers=["roundtrip"]) for n, w in ((129, 1), (255, 2), (257, 0))], "255 headers of calls, 257 of init"),
    "C10": ([job("counter", "counter_any", 2, covers=["all"])], "any number of messages (below 2^32) between two in flight"),
    "C11": ([job("counter", "counter_any", 2, covers=["all"]), job("counter", "counter_any", 3, covers=["all"]), job("counter", "counter_any", 4, tier="thorough", covers=["all"]),
             job(SV, "srv_seq", 2, 1, 1, 2, 0, covers=SEQ), job(SV, "srv_seq", 2, 1, 3, 3, 1, tier="thorough", covers=SEQ)],
            "any number of messages (below 2^32) between 2..3 (thorough: 4) in flight; 2 requests, proper or broken in five ways, the ids of which are used again"),
    "C12": ([job(SV, "srv_seq", 2, 1, 2, 2, 0, covers=SEQ), job(SV, "srv_seq", 1, 2, 2, 3, 1, covers=SEQ), job(SV, "srv_seq", 2, 1, 12, 2, 0, tier="thorough", covers=SEQ)],
            "1..2 requests, proper or broken in five ways, one after the other"),
    "C13": ([job(SV, "srv_seq", 1, 1, 12, 2, 0, covers=SEQ)], "a proper or broken request and those after it"),
    "C16": ([job(SV, "srv_seq", 1, 1, 12, 2, 0, covers=SEQ), job(SV, "srv_seq", 2, 2, 3, 1, 0, covers=SEQ), job(SV, "srv_seq", 3, 2, 3, 1, 0, tier="thorough", covers=SEQ)],
            "after 1..2 (thorough: 3) requests which fail in any way, as many as the limit"),
}
for _id, (_jobs, _text) in MORE.items():
    CHECKS[_id]["jobs"] = CHECKS[_id]["jobs"] + _jobs
    CHECKS[_id]["bounds"] += "; " + _text

# More of both ends: long failures, clients which do not read, connections lost while sending, ids used again.
LONG = [(32760, 12, 2, 0), (32764, 6, 3, 1), (32740, 40, 4, 2), (65530, 10, 1, 0), (65533, 4, 2, 1), (250, 6, 1, 3)]
REUSE = ["again", "error", "error response", "ok", "unsent"]
MORE2 = {
    "C01": ([job("frames", "frame_roundtrip", n, 3, 2, covers=["roundtrip"]) for n in (32751, 32753, 65518)], "payloads of 32751, 32753 and 65518 arbitrary bytes"),
    "C03": ([job(SV, "srv_long", *a, covers=["error frame"]) for a in ((32760, 12, 2, 0), (65533, 4, 2, 1))], "errors with messages of 32760..32771 and 65533..65536 bytes"),
    "C11": ([job("reuse", "reuse_seq", 2, 0, covers=REUSE), job("reuse", "reuse_seq", 3, 0, tier="thorough", covers=REUSE)], "2 (thorough: 3) calls which end in any of eleven ways, the id of which is used by the next one, with another one in flight"),
    "C12": ([job(SV, "srv_long", *a, covers=["error frame"]) for a in LONG] + [job(SV, "srv_long", *a, tier="thorough", covers=["error frame"]) for a in ((65520, 100, 2, 2), (32700, 200, 3, 0), (131000, 20, 3, 0))],
            "failures with messages of 32740..32779 and 65530..65539 (thorough: ..131019) bytes of characters of 1..4 bytes, unknown names of that length"),
    "C13": ([job(SV, "srv_long", *a, covers=["error frame"]) for a in LONG[:2]] + [job("reuse", "reuse_seq", 2, 0, covers=REUSE), job("reuse", "reuse_seq", 3, 0, tier="thorough", covers=REUSE)],
            "failures with messages of 32760..32771 bytes; 2 (thorough: 3) calls in sequence which end in any of eleven ways"),
    "C14": ([job(CL, "cl_handshake", 4, covers=["accepted"])], "an init response under any other id first"),
    "C15": ([job(CL, "cl_send_loss", *a, covers=c) for a, c in (((1, 10, 2, 40, 0), ["lost"]), ((3, 50, 1, 40, 0), ["lost"]), ((4, 5, 1, 70000, 0), ["lost"]), ((2, 5, 1, 70000, 1), ["lost", "again"]))]
            + [job(CL, "cl_send_loss", 3, 1, 1, 200, 2, tier="thorough", covers=["lost"]), job(CL, "cl_send_loss", 4, 30, 1, 40, 2, tier="thorough", covers=["lost"])],
            "1..4 calls which are being sent (over a connection which holds 5..50 bytes, requests of 1..2 frames) when the peer stops sending, resets or goes away, having read some or nothing"),
    "C16": ([job(SV, "srv_stuck", *a, covers=["served"]) for a in ((2, 7, 1, 1, 0), (3, 7, 1, 1, 0), (3, 40, 2, 2, 0), (2, 7, 1, 1, 1))] + [job(SV, "srv_stuck", *a, tier="thorough", covers=["served"]) for a in ((4, 7, 1, 1, 0), (3, 1, 0, 1, 0), (3, 7, 2, 1, 1))],
            "a client with 2..3 (thorough: 4) requests which does not read its responses over connections of 1..40 bytes"),
    "C19": ([job("pool", "pool_hosts", 3, 0, 1, covers=["ok"]), job("pool", "pool_hosts", 2, 1, 1, covers=["ok"])], "hosts which differ by port or by address"),
    "C20": ([job(SV, "srv_stuck", 2, 7, 1, 1, 0, covers=["served"])], "a client which does not read its responses while others are served"),
}
AGAIN = [job(SV, "srv_again", 2, 0, 1, 4, covers=["all"]), job(SV, "srv_again", 2, 1, 1, 1, covers=["all"]), job(SV, "srv_again", 3, 1, 1, 2, tier="thorough", covers=["all"]), job(SV, "srv_again", 2, 2, 1, 1, tier="thorough", covers=["all"]), job(SV, "srv_again", 2, 0, 2, 1, tier="thorough", covers=["all"])]
MORE3 = {
    "C16": (AGAIN[1:2], "2 requests under one id, the second sent as soon as the first is answered"),
    "C10": (wire("wire_dup", (2, 2), tier="thorough", covers=["answered", "refused", "ping"]) + wire("wire_dup_back", (2, 2), tier="thorough", covers=["refused"]),
            "frames of any type under the id of a message whose frames are not all there yet (thorough)"),
    "C11": (wire("wire_dup", (2, 1), covers=["answered", "refused", "ping"]) + wire("wire_dup_back", (2, 1), covers=["refused"]) + AGAIN
            + wire("wire_dup", (2, 2), (3, 1), tier="thorough", covers=["answered", "refused", "ping"]) + wire("wire_dup_back", (2, 2), (3, 1), tier="thorough", covers=["refused"]),
            "another message, or a frame of any type, under the id of a message of 2 (thorough: 3) frames which is not finished, next to one of 1 (thorough: 2) frames, at every point, in both directions; 2 (thorough: 3) requests under one id, each sent as soon as the one before is answered, with 1 (thorough: 2) delays and 1 (2) preemptions"),
    "C20": (wire("wire_aborted", (2, 1), covers=["aborted", "served"]) + wire("wire_aborted", (3, 1), (2, 2), tier="thorough", covers=["aborted", "served"]),
            "2 (thorough: 3) clients which leave before or right after they are accepted"),
}
for _id, (_jobs, _text) in list(MORE2.items()) + list(MORE3.items()):
    CHECKS[_id]["jobs"] = CHECKS[_id]["jobs"] + _jobs
    CHECKS[_id]["bounds"] += "; " + _text

OUT = ["ok", "error response", "error"]
MORE4 = {
    "C10": (wire("wire_dup", (2, 1), covers=["answered", "refused", "ping"]), "a frame of any type under the id of a request of 2 frames which is not finished"),
    "C12": (wire("wire_outcome", (1, 1), covers=OUT), "handlers which fail with messages of 0..1 bytes"),
    "C13": (wire("wire_outcome", (1, 1), (2, 2), covers=OUT) + wire("wire_outcome_back", (1, 1), (2, 2), (2, 3), covers=OUT) + wire("wire_outcome", (3, 3), tier="thorough", covers=OUT) + wire("wire_outcome_back", (4, 4), tier="thorough", covers=OUT),
            "handlers, at once or later, which end in each way with endpoint, header and body of 0..2 (thorough: 3) bytes, and responses of each kind with args of 0..2 (thorough: 4) bytes in 1..3 (4) frames"),
    "C18": ([job("msgs", "json_texts", covers=["accepted", "rejected"])], "sixteen texts which are JSON but no object or no JSON, and six which are an object"),
    "C21": (wire("wire_dup", (2, 1), covers=["ping"]), "pings under the id of a request which is not finished; pings which carry 0..1 arbitrary bytes"),
}
for _id, (_jobs, _text) in MORE4.items():
    CHECKS[_id]["jobs"] = CHECKS[_id]["jobs"] + _jobs
    CHECKS[_id]["bounds"] += "; " + _text

# What else would show a violation, and calls which are given up, hosts which do not answer.
CANCEL = [job(CL, "cl_cancel", 2, 1, 4, 0, 4, 0, covers=["again", "early", "late"]), job(CL, "cl_cancel", 2, 2, 1, 0, 4, 0, covers=["again", "early", "late"]), job(CL, "cl_cancel", 2, 1, 1, 7, 60, 0, covers=["again", "early", "late"]), job(CL, "cl_cancel", 2, 1, 1, 3000, 70000, 0, covers=["again", "early", "late"])]
CANCELT = [job(CL, "cl_cancel", *a, tier="thorough", covers=["again", "early", "late"]) for a in ((3, 1, 1, 0, 4, 0), (2, 1, 2, 0, 70000, 1), (2, 2, 1, 0, 4, 1))]
DEAD = [job("pool", "pool_dead", k, 0, covers=["others"]) for k in (0, 1, 2)] + [job("pool", "pool_dead", 2, 1, covers=["others"])]
DEADT = [job("pool", "pool_dead", k, 1, tier="thorough", covers=["others"]) for k in (0, 1)]
TWO = [job("pool", "pool_many", 2, 1, 1, 1, covers=["both", "one"]), job("pool", "pool_many", 3, 2, 1, 0, covers=["both", "one"])]
TWOT = [job("pool", "pool_many", *a, tier="thorough", covers=["both", "one"]) for a in ((3, 1, 1, 1), (4, 2, 1, 0))]
BROKEN = ["answered", "refused", "waits", "too many args"]
GIVEUP = "2 calls (thorough: 3) one of which is given up by its caller at any moment, with requests of 1..2 frames and responses of 1..2 over connections which hold 7, 3000 or any number of bytes"
MORE5 = {
    "C01": ([job("frames", "frame_limit", 0, 4, 0, covers=["written"]), job("frames", "frame_limit", 65515, 8, 2, covers=["written", "refused"])], "payloads of 0..3 and of 65515..65522 bytes"),
    "C03": ([job("reuse", "reuse_seq", 2, 0, covers=REUSE)], "calls which cannot be encoded, between others"),
    "C05": (wire("wire_split", (1, 2, 1), covers=BROKEN) + wire("wire_split_back", (1, 2, 1), covers=BROKEN) + wire("wire_dup", (2, 1), covers=["answered", "refused", "ping"]) + wire("wire_dup_back", (2, 1), covers=["refused"])
            + [job("msg", "defrag_request", 2, 1, 1, 2, covers=["complete", "error"]), job("msg", "defrag_response", 2, 1, 1, 2, covers=["complete", "error"]), job(SV, "srv_bad", 2, 0, covers=["refused", "dropped"]), job(CL, "cl_stray", 1, 2, 1)]
            + [job(SV, "srv_long", *a, covers=["error frame"]) for a in LONG[:3]] + [job(SV, "srv_handshake", 2, 6), job(CL, "cl_handshake", 2, 6)] + [job("msgs", e, 3) for e in ("raw_any", "json_any")] + [job("msgs", "scheme_any", n) for n in (0, 3, 5)],
            "messages of 2..3 frames cut anywhere with one broken or out of place; names of 32740..32779 bytes which are unknown; handshakes of 6, args of 3 and schemes of 0, 3 and 5 arbitrary bytes"),
    "C09": ([job(CL, "cl_wild", *a, covers=["error"]) for a in ((3, 0, 1), (6, 1, 0), (9, 1, 0))] + [job(SV, "srv_wild", *a, covers=["error frame"]) for a in ((6, 0, 1), (6, 1, 0), (4, 0, 3))]
            + wire("wire_dup", (2, 1), covers=["answered", "refused", "ping"]) + wire("wire_dup_back", (2, 1), covers=["refused"])
            + [job(CL, "cl_loss", 1, 2, 0, 2, 1, covers=["lost", "complete", "again"]), job(SV, "srv_close", 1, 2, 0, covers=["answered", "cut"]), job(SV, "srv_bad", 2, 0, covers=["refused", "dropped"])],
            "frames of any type under the id of an unfinished message; connections which end at any byte of a message of up to 2 frames; continuations of 6 and 9 arbitrary bytes"),
    "C10": (CANCEL + CANCELT + TWO + AGAIN[:1] + [job("reuse", "reuse_seq", 2, 0, covers=REUSE), job(SV, "srv_bad", 2, 0, covers=["refused", "dropped"]), job("e2e", "e2e_self", 1, 0, covers=["ok"])], GIVEUP + "; 2..3 calls at once to any of two hosts"),
    "C11": (CANCEL[:2] + CANCELT[:1], "a call given up by its caller next to another one"),
    "C12": (wire("wire_split", (1, 2, 1), covers=BROKEN) + wire("wire_accept", (2, 0, 200), covers=MANY) + [job(SV, "srv_register", 2, covers=["registered", "rejected"])],
            "requests with any 2 adjoining bytes arbitrary, or cut anywhere into 3 frames one of which is broken"),
    "C15": ([job("reuse", "reuse_seq", 2, 0, covers=REUSE), job("pool", "pool_history", 3, 2, 0, covers=["ended", "failed", "ok"])], "losses between other calls"),
    "C16": (CANCEL + CANCELT[:1] + DEAD + DEADT + TWO[:1] + [job(SV, "srv_gate", 3, 0, 1, covers=["out of order"]), job(SV, "srv_bad", 2, 0, covers=["refused", "dropped"]), job(SV, "srv_close", 1, 2, 0, covers=["answered", "cut"]), job(SV, "srv_silent", 1, 0, covers=["served"]), job("reuse", "reuse_seq", 2, 0, covers=REUSE)]
            + wire("wire_dup", (2, 1), covers=["answered", "refused", "ping"]),
            GIVEUP + "; calls to a host while another one does not listen, does not answer the handshake or not the request"),
    "C17": ([job(SV, "srv_names", *a, covers=["known", "unknown"]) for a in ((1, 1, 1, 0), (2, 1, 2, 0), (1, 1, 1, 1), (2, 2, 2, 1), (3, 3, 3, 1), (1, 2, 2, 1))] + [job(SV, "srv_names", *a, tier="thorough", covers=["known", "unknown"]) for a in ((5, 5, 5, 1), (8, 8, 8, 0))] + [job(SV, "srv_gate", 3, 0, 1, covers=["out of order"]), job("e2e", "e2e_restart", 0, covers=["ok"])] + wire("wire_fields", (2, 1), covers=["request", "response"]), "requests with services of 2 arbitrary bytes; two services and a request to one, names and endpoints of 1..3 (thorough: 8) arbitrary (ASCII) bytes each"),
    "C18": ([job("msgs", "json_values", covers=["roundtrip"]), job("msgs", "json_floats", covers=["inexact"])] + wire("wire_outcome", (1, 1), covers=OUT) + wire("wire_outcome_back", (1, 1), covers=OUT), "messages of 0..1 bytes on the wire; 23 json values at the ends of their ranges, with escapes, nested or with many entries, under four keys"),
    "C19": (DEAD + DEADT + TWO + TWOT + [job("pool", "pool_test", 1, 0, 0, covers=["passed", "replaced"]), job("pool", "pool_test", 3, 0, 0, covers=["replaced"]), job(CL, "cl_race", 1, 1, 1, 1, covers=["failed"])] + CANCEL[:1],
            "2..3 (thorough: 4) calls at once, each to any of two hosts with 1..2 connections each; a host which does not listen, does not answer the handshake or not the request while another one is called"),
    "C20": ([job(SV, "srv_handshake", 1, covers=AH), job(SV, "srv_handshake", 3, covers=["refused"]), job(SV, "srv_wild", 3, 2, 0, covers=["error frame"])], "clients which fail their handshake"),
    "C21": ([job("pool", "pool_history", 3, 1, 0, 1, covers=["ended", "ok"])], "every sequence of 3 calls and losses with tested connections"),
}
for _id, (_jobs, _text) in MORE5.items():
    _have = {(j["group"], j["entry"], tuple(j["params"])) for j in CHECKS[_id]["jobs"]}
    CHECKS[_id]["jobs"] = CHECKS[_id]["jobs"] + [j for j in _jobs if (j["group"], j["entry"], tuple(j["params"])) not in _have]
    CHECKS[_id]["bounds"] += "; " + _text

# Hosts given as lists of addresses; the server stops while requests are under way.
ADDRS = [job("pool", "pool_addrs", 3, 0, 1, covers=["none", "ok", "several"]), job("pool", "pool_addrs", 2, 1, 0, covers=["none", "ok", "several"])]
ADDRST = [job("pool", "pool_addrs", *a, tier="thorough", covers=["none", "ok", "several"]) for a in ((3, 1, 1), (4, 0, 1))]
STOP = [job(SV, "srv_stop", *a, covers=["again", "stopped"]) for a in ((2, 1, 1), (3, 0, 1), (2, 1, 0))]
STOPT = [job(SV, "srv_stop", *a, tier="thorough", covers=["again", "stopped"]) for a in ((3, 1, 1), (2, 3, 1), (3, 1, 0), (3, 2, 2))]
# (a path for every length)
ALL_LENGTHS = [job("frames", "frame_limit", k, 2048, 1, covers=["written"], cost=1) for k in range(0, 65536 - 2048, 2048)] + [job("frames", "frame_limit", 63488, 2112, 1, covers=["written", "refused"], cost=1)]
MORE6 = {
    "C01": (ALL_LENGTHS, "payloads of every length from 0 to 65599 bytes, three bytes of which are arbitrary"),
    "C03": (ALL_LENGTHS, "payloads of every length from 0 to 65599 bytes"),
    "C17": ([job(SV, "srv_names", *a, covers=["known", "unknown"]) for a in ((1, 1, 1, 1, 40, 300), (2, 2, 2, 1, 250, 1000), (1, 2, 1, 1, 100, 60000))] + [job(SV, "srv_concurrent", *a, covers=["one"]) for a in ((2, 1, 1, 1), (3, 2, 1, 1))], "names of 40..252 and of 300..60002 bytes which differ in their last 1..2 bytes"),
    "C16": (STOP + STOPT, "2..3 requests while the server stops (and starts again) at any frame"),
    "C19": (ADDRS + ADDRST, "every sequence of 2..3 (thorough: 4) calls to lists of 0..2 addresses of two hosts"),
    "C20": (STOP + STOPT, "stops (and starts) before, between and after the frames of 2..3 requests to handlers which run on"),
}
for _id, (_jobs, _text) in MORE6.items():
    CHECKS[_id]["jobs"] = CHECKS[_id]["jobs"] + _jobs
    CHECKS[_id]["bounds"] += "; " + _text

# The same after a longer life: what went on before the arbitrary part.
def worn(j, times, losses=0):
    p = list(j["params"]) + [0] * (10 - len(j["params"]))
    p[8], p[9] = losses, times
    return dict(j, params=p)


R = ("ok", "error response")
MORE7 = {
    "C10": ([worn(job(CL, "cl_route", 2, 2, 0, 0, 4, 1, covers=R), 25), worn(job(SV, "srv_route", 2, 2, 2, 0, 0, 2, 2, 0), 25), worn(job(SV, "srv_two", 2, 0, covers=["both"]), 25), worn(job(CL, "cl_route", 1, 1, 0, 0, 4, 0, covers=R), 300)], ""),
    "C11": ([worn(job(CL, "cl_cancel", 2, 1, 4, 0, 4, 0, covers=["again", "early", "late"]), 25)], ""),
    "C12": ([worn(job(SV, "srv_route", 2, 1, 12, 0, 0, 1, 1, 0, covers=R + ("error frame",)), 25), worn(job(SV, "srv_route", 1, 1, 12, 0, 0, 1, 1, 0, covers=R + ("error frame",)), 300)], ""),
    "C13": ([worn(job(CL, "cl_error", 2, 0, covers=["error"]), 25), worn(job(SV, "srv_route", 2, 1, 12, 0, 0, 1, 1, 0, covers=R + ("error frame",)), 25)], ""),
    "C09": ([worn(job(CL, "cl_wild", 3, 0, 1, covers=["error"]), 25), worn(job(SV, "srv_wild", 4, 0, 3, covers=["error frame"]), 25), worn(job(CL, "cl_stray", 1, 2, 0), 25), worn(job(SV, "srv_bad", 2, 0, covers=["refused", "dropped"]), 25)], ""),
    "C15": ([worn(job(CL, "cl_loss", 1, 1, 0, 2, 1, covers=["lost", "complete", "again"]), 25), worn(job("pool", "pool_history", 3, 1, 0, 0, covers=["ended", "failed", "ok"]), 28, 1)], ""),
    "C16": ([worn(job(SV, "srv_seq", 1, 1, 12, 2, 0, covers=SEQ), 25), worn(job(SV, "srv_tasks", 2, 4, 0, 2, covers=["full", "all"]), 25), worn(job(SV, "srv_gate", 3, 0, 1, covers=["out of order"]), 25), worn(job(SV, "srv_silent", 1, 0, covers=["served"]), 10)], ""),
    "C19": ([worn(job("pool", "pool_history", 3, 1, 0, 0, covers=["ended", "failed", "ok"]), t, l) for t, l in ((12, 0), (27, 1), (28, 1))] + [worn(job("pool", "pool_history", 2, 2, 0, 0, covers=["ended", "ok"]), 28, 1)], ""),
    "C20": (wire("wire_aborted", (2, 1, 0, 0, 0, 0, 0, 0, 0, 20), covers=["aborted", "served"]) + [worn(job(SV, "srv_life", 3, 0, covers=["up", "down"]), 9), worn(job(SV, "srv_stop", 2, 1, 1, covers=["again", "stopped"]), 25)], ""),
    "C21": ([worn(job("pool", "pool_test", k, 0, 0, covers=["passed"] if k == 0 else ["replaced"]), 25) for k in (0, 1, 2, 3)] + [worn(job("pool", "pool_test", k, 0, 0, covers=["passed"] if k == 0 else ["replaced"]), 28, 1) for k in (0, 1)] + [worn(job("pool", "pool_test", 0, 0, 0, covers=["passed"]), 300), worn(job(SV, "srv_ping", 2, 2, 0, covers=["pong"]), 25), worn(job(SV, "srv_ping", 1, 1, 0, covers=["pong"]), 300), worn(job("pool", "pool_history", 3, 1, 0, 1, covers=["ended", "ok"]), 28, 1)], ""),
}
for _id, (_jobs, _text) in MORE7.items():
    CHECKS[_id]["jobs"] = CHECKS[_id]["jobs"] + _jobs
    CHECKS[_id]["bounds"] += "; the same after 5..300 calls, requests, pings, connections, losses or stops before (of fixed kinds)" + _text

# Texts of every small length in characters of 1..4 bytes, wherever there are texts; other kinds of addresses; many clients which stay.
LONG_ALL = [job(SV, "srv_long", 1, 255 if k > 2 else 300, w, k, covers=["error frame"]) for k in range(5) for w in (2, 3, 4)] + [job(SV, "srv_long", n, 16, w, k, covers=["error frame"]) for n in (506, 1018, 2042, 4090) for k, w in ((0, 3), (2, 3))]
SRV_TEXTS = [job(SV, "srv_texts", 0, 260, w, covers=["answered"]) for w in (1, 2, 3, 4)] + [job(SV, "srv_texts", 16380, 10, 2, covers=["answered"])]
CL_TEXTS = [job(CL, "cl_texts", 0, 260, w, covers=["ok", "error response", "error"]) for w in (1, 2, 3, 4)] + [job(CL, "cl_texts", 16380, 10, 2, covers=["ok", "error response", "error"])]
TEXTS = "texts of every length of 0..260 bytes in characters of 1..4 bytes as names, headers and reasons"
MORE8 = {
    "C03": (CL_TEXTS, TEXTS),
    "C05": (LONG_ALL[1::3], TEXTS),
    "C10": (CL_TEXTS, TEXTS),
    "C12": (LONG_ALL + SRV_TEXTS, TEXTS),
    "C13": (CL_TEXTS + LONG_ALL[:6], TEXTS),
    "C17": (SRV_TEXTS, TEXTS),
    "C16": ([worn(job(SV, "srv_gate", 3, 0, 1, covers=["out of order"]), 100)], "up to 40 clients which stay"),
    "C19": ([job("pool", "pool_addrs", 2, 0, 1, k, covers=["none", "ok", "several"]) for k in range(1, 7)], "addresses of IPv4 and IPv6 which differ in the host, the port or the scope"),
    "C20": ([worn(job(SV, "srv_stop", 2, 1, 1, covers=["again", "stopped"]), 100), worn(job(SV, "srv_silent", 1, 0, covers=["served"]), 20)], "up to 40 clients which stay"),
}
for _id, (_jobs, _text) in MORE8.items():
    CHECKS[_id]["jobs"] = CHECKS[_id]["jobs"] + _jobs
    CHECKS[_id]["bounds"] += "; " + _text

# Many of everything, and time which passes.
RR = ("ok", "error response")
DM = [job("msg", "defrag_many", r, a, b, covers=["complete"]) for r in (0, 1) for a, b in ((2, 12), (60, 12), (250, 12))] + [job("msg", "defrag_many", r, 2000, 1, tier="thorough", covers=["complete"]) for r in (0, 1)]
FB = [job("msg", e, *a, covers=["more frames"]) for e in ("frag_request", "frag_response") for a in ((3, 1, 1, 1100000, 2, 4, 0), (3, 1, 1, 17000000, 1, 4, 0), (3, 1100000, 1, 1100000, 1, 4, 0))]
CLM = [job(CL, "cl_many", *a, covers=["all"]) for a in ((1, 20, 0, 0), (8, 14, 9, 0), (30, 10, 4, 0), (60, 10, 100, 0), (100, 1, 16, 0), (300, 1, 8, 0), (9, 2, 9, 70000), (20, 2, 20, 120000), (3, 3, 2, 0, 1))]
CLMT = [job(CL, "cl_many", *a, tier="thorough", covers=["all"]) for a in ((20, 50, 0, 0), (600, 1, 500, 0), (40, 4, 3, 70000), (4, 3, 2, 0, 2))]
SRM = [job(SV, "srv_many", *a, covers=RR) for a in ((2, 19, 0, 0, 1, 0), (8, 14, 9, 9, 1, 0), (30, 10, 4, 2, 1, 0), (60, 10, 100, 1, 1, 0), (100, 1, 4, 4, 3, 0), (300, 1, 8, 8, 1, 0), (6, 2, 9, 4, 1, 70000), (60, 2, 4, 4, 40, 0))]
SRMT = [job(SV, "srv_many", *a, tier="thorough", covers=RR) for a in ((20, 50, 0, 0, 1, 0), (600, 1, 500, 100, 1, 0), (40, 4, 3, 2, 2, 70000))]
REG = [job(SV, "srv_registry", *a, covers=["all"]) for a in ((1, 8, 1), (20, 2, 1), (2, 1, 20), (20, 1, 20), (300, 1, 1), (1, 1, 300))]
CROWD = [job("pool", "pool_crowd", *a, covers=["all"]) for a in ((2, 12, 2, 0), (10, 2, 3, 1), (40, 1, 2, 0), (130, 1, 2, 1))]
AGE = [job("pool", "pool_age", *a, covers=["closed", "late", "replaced", "reused"]) for a in ((4, 1, 0, 0), (4, 2, 0, 1), (3, 1, 1, 0))]
AGET = [job("pool", "pool_age", *a, tier="thorough", covers=["closed", "late", "replaced", "reused"]) for a in ((5, 2, 0, 0), (6, 1, 0, 1), (4, 2, 1, 0))]
SLOWC = [job(CL, "cl_slow", *a, covers=RR) for a in ((1, 2, 0, 60), (2, 2, 30, 30))]
SLOWS = [job(SV, "srv_slow", *a, covers=["frames", "handler", "queue"]) for a in ((0, 60, 0), (58, 2, 100000))]
MANY9 = "messages of 2..261 (thorough: 2000) frames; args of 1100000 and 17000000 bytes"
BUSY = "1..20, 30..69, 100 and 300 (thorough: 600) calls or requests at once, of up to 120000 bytes, with buffers of 2 to 100"
MORE9 = {
    "C02": (CLM[-3:-1] + SRM[6:7], "20 calls at once of 120000 bytes"),
    "C07": (FB, "args of 1100000 and 17000000 bytes"),
    "C08": (DM + FB, MANY9),
    "C09": (DM[:2], "messages of 2..13 frames with args which start in any of them"),
    "C10": (CLM + SRM + CLMT + SRMT + SLOWC + SLOWS, BUSY + "; responses and handlers which take 0..59 seconds"),
    "C11": (CLM[:5] + SRM[:5] + CLMT[:1], BUSY),
    "C12": (SRM[:3], BUSY),
    "C13": (SLOWC + SLOWS, "responses and handlers which take 0..59 seconds"),
    "C16": (SRM + CLM[:6] + SRMT + SLOWS, BUSY + "; handlers which take 0..59 seconds"),
    "C17": (REG, "1..300 services with 1..300 handlers each"),
    "C19": (CROWD + AGE + AGET, "2..14, 40 and 130 hosts; every sequence of 3..4 (thorough: 6) calls, answers and times of 20 and 130 seconds"),
    "C20": (SLOWS[1:], "connections which idle for a day"),
}
for _id, (_jobs, _text) in MORE9.items():
    CHECKS[_id]["jobs"] = CHECKS[_id]["jobs"] + _jobs
    CHECKS[_id]["bounds"] += "; " + _text

# Limits of any size; clients which end their side of a connection and wait for their responses; names which contain each other.
ENDS = [job(SV, "srv_tasks", *a, covers=["all", "ended"]) for a in ((2, 4, 0, 2, 1), (1, 3, 1, 2, 1), (0, 3, 0, 2, 1))]
MORE10 = {
    "C10": (ENDS[:1], "clients which end their side before they are answered"),
    "C12": (ENDS[:1], "clients which end their side before they are answered"),
    "C16": ([job(SV, "srv_tasks", 99, *a, covers=["full", "all"]) for a in ((3, 0, 2), (2, 1, 1))] + ENDS, "any limit of 64 bits with 2..3 requests; clients which end their side before they are answered"),
    "C17": ([job(SV, "srv_names", *a, covers=["unknown"]) for a in ((1, 1, 4, 1), (4, 4, 1, 1), (1, 2, 5, 0), (6, 3, 2, 1))] + [job(SV, "srv_names", 4, 4, 4, 1, covers=["known", "unknown"])], "a name of 1..6 arbitrary bytes against others of 1..6"),
}
for _id, (_jobs, _text) in MORE10.items():
    CHECKS[_id]["jobs"] = CHECKS[_id]["jobs"] + _jobs
    CHECKS[_id]["bounds"] += "; " + _text
