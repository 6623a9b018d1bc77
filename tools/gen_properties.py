#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that ids/anchors stay in one readable place)."""
import json, os
C="yamux/src/connection.rs"; S="yamux/src/connection/stream.rs"; FC="yamux/src/connection/stream/flow_control.rs"
CL="yamux/src/connection/closing.rs"; CU="yamux/src/connection/cleanup.rs"; RTT="yamux/src/connection/rtt.rs"
IO="yamux/src/frame/io.rs"; H="yamux/src/frame/header.rs"; F="yamux/src/frame.rs"; CH="yamux/src/chunks.rs"; L="yamux/src/lib.rs"; TS="yamux/src/tagged_stream.rs"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

p("P01","Every stream is a faithful, private byte pipe",
 "The bytes an application reads from a stream are exactly a prefix of the bytes the other application successfully wrote to that stream, in order, with nothing lost, duplicated, altered or leaked from another stream, whichever read or write interface is used. A stream opened by one side surfaces exactly once on the other side, under the same identifier. A reader is never told 'end of stream' while the writer still has the stream open and the connection is healthy, and once the writer has finished cleanly the reader gets every byte before the end of stream.",
 ["schedules","inputs","configurations","fault_sequences"],
 "All interleavings of any number of streams, tasks and threads on both endpoints; all payload sizes and chunkings; all buffer sizes, read interfaces, configurations; all transport fragmentations, stalls and delays.",
 "The tests echo a few payloads over loopback TCP with whatever interleaving the kernel and tokio produce; partial header/body reads and writes, mixed read interfaces, and preemption between connection and stream handles are sampled only by accident.",
 [S,CH,C,IO],[("receive buffer push/pop with partial-chunk cursor",CH),("poll_read / Packet poll_next copy out of the buffer",S),("poll_write splits and queues data frames",S),("on_data routes bodies by stream id",C),("incremental frame reader/writer with offsets",IO)],
 [("Shared.buffer","unread received bytes of a stream",S)],["Stream::poll_read","Stream::poll_next","Stream::poll_write","Connection::poll_next_inbound"])

p("P02","Progress: no deadlock and no lost wake-up",
 "While the transport keeps moving bytes (however slowly, with however little buffering) and both applications keep driving their connection and reading their streams, every pending open, read, write, flush and close eventually completes, and the task waiting for it is woken. This holds for bidirectional bulk transfer, for reader and writer of one stream living on different tasks or threads, for streams opened while the connection task is idle, and while keep-alive pings cross on the wire.",
 ["schedules","configurations","fault_sequences"],
 "All task/thread interleavings, waker identities, transport capacities, delays and pending patterns; faults limited to slowness, fragmentation and spurious wake-ups.",
 "A lost wake-up needs one particular interleaving of connection task, reader task and writer task; the single write_deadlock test runs one schedule with one capacity and one shared waker.",
 [C,S,IO,TS],[("reader/writer wakers in the shared stream state",S),("connection waker for newly added streams",C),("backlog waker for pending opens",C),("bounded command channel per stream",S),("keep reading while writes are blocked",C)],
 [("Shared.reader / Shared.writer","task to wake on data / credit",S),("no_streams_waker, new_outbound_stream_waker","connection-level wakers",C)],["quiescence of the simulated system with an operation still pending"])

p("P03","Half-close gives the peer a clean end of stream",
 "After an application closes its sending side, the peer reads every byte written before the close and then end of stream, while the opposite direction keeps working in full until it is closed too. Writes after the close fail, closing again is harmless and announces nothing new, closing a stream that never carried data still gives the peer an end of stream, and the stream reports itself write-closed after its own close and closed once both sides have closed.",
 ["schedules","inputs","histories"],
 "All orders of write, close, read and repeated close on both ends, in all interleavings with delivery, for opener and acceptor, including streams closed before any data was written.",
 "prop_send_recv_half_closed runs one fixed sequence from the client side only; crossing closes, closes with data still queued or out of credit, and close-before-first-write are not exercised.",
 [S,C],[("poll_close queues a closing frame behind the data",S),("state machine update_state",S),("FIN handling in on_data / on_window_update wakes readers",C)],
 [("State","open / send-closed / recv-closed / closed",S)],["Stream::poll_close","Stream::is_write_closed","Stream::is_closed","EOF at Stream::poll_read"])

p("P04","Dropping a stream handle releases both ends",
 "When an application drops a stream handle, whether or not it has closed its sending side before, everything it had written is still delivered and the peer then sees the stream end: its reads finish and its writes (including one blocked for lack of credit) fail instead of hanging. The dropped stream's slot becomes free again on the dropping side, late frames for it are ignored, and no other stream or the connection is disturbed.",
 ["schedules","histories","crash_points"],
 "Handle dropped at any point of its life (unused, mid-transfer, half-closed by either side, out of credit, with frames queued or in flight), in every interleaving with the peer's activity and with other streams.",
 "Only close_through_drop_of_stream_propagates_to_remote covers this, with one byte and one schedule; drops racing with window updates, FINs or a blocked remote writer are untested.",
 [C,S,TS],[("end of the stream's command channel triggers on_drop_stream",C),("RST/FIN selected from the state at drop",C),("RST handling wakes reader and writer",C),("frames for unknown streams ignored",C)],
 [("Active.streams","live streams of the connection",C)],["peer's Stream::poll_read / poll_write","Connection::poll_new_outbound after drops"])

p("P05","A sender never exceeds, and always may use, its credit",
 "On the wire, the payload bytes sent on a stream never exceed 256 KiB plus the credit the peer has granted and that this endpoint has received for that stream. Conversely, credit that has been received is usable: a writer is never left waiting while it has unused credit, and a grant wakes a writer that was waiting for it.",
 ["schedules","inputs","configurations"],
 "All sequences and timings of data and window updates on any number of streams, all window sizes including initial extra credit, all write sizes and split sizes.",
 "Tests never look at the wire; a sender overrunning by one frame under a particular interleaving is invisible to echo tests unless the receiver happens to enforce it at that moment.",
 [S,FC,C],[("consume_send_window before queueing",S),("increase_send_window_by on window update, wakes writer",C)],
 [("send_window","credit left",FC)],["data and window-update frames on the simulated wire","Stream::poll_write"])

p("P06","Receive windows bound what a peer may have unread",
 "For every stream, bytes buffered unread plus credit still outstanding never exceed that stream's window, credit is granted only for bytes the application has consumed (plus permitted window growth), and across all streams of a connection the windows together never exceed the configured connection limit. When the application does consume, credit is granted again, so a reading application never starves its sender.",
 ["schedules","inputs","configurations"],
 "All numbers of streams, read sizes, read timings and stalls, all connection window limits (including none and the minimum), all round-trip times.",
 "The quickcheck test calls the window function on random internal states once; nothing checks the running sum of grants over a whole connection history or that grants follow consumption.",
 [FC,S,C],[("next_window_update grants max - outstanding - buffered",FC),("accumulated_max_stream_windows bookkeeping",FC),("window update sent from the read path",S)],
 [("receive_window, max_receive_window","outstanding credit and maximum of a stream",FC),("accumulated_max_stream_windows","growth granted on the connection",C)],["window-update frames on the simulated wire versus bytes read"])

p("P07","Window auto-tuning follows its rule and returns what it took",
 "A stream's receive window starts at 256 KiB, stays there while no round-trip time is known or while the application takes two round trips or longer to consume half a window, and doubles when at least half a window is consumed in under two round trips and the connection limit still has room for that much (never more than doubling per update, never beyond the limit). It never shrinks during the life of the stream, and the share of the connection limit a stream took is available to others once that stream is gone.",
 ["schedules","configurations","histories"],
 "All round-trip times, consumption rates, stream counts and churn histories, all connection limits; time is simulated so minutes-long histories are covered.",
 "Depends on the clock, the measured RTT and the history of other streams; unit tests use the real clock with a single call and no histories of stream churn.",
 [FC,RTT,C],[("RTT-gated doubling",FC),("Drop of the flow controller returns growth",FC),("ping/pong RTT measurement",RTT)],
 [("last_window_update, rtt","inputs of the growth rule",FC)],["credit in window-update frames against simulated time"])

p("P08","A stalled stream does not block the others",
 "If an application stops reading (or accepting work on) some streams, only those streams come to a halt, after at most one receive window of data each; all other streams of the same connection, opening new ones, and the connection's own control traffic keep making progress, and the stalled streams resume unharmed when reading resumes.",
 ["schedules","configurations"],
 "Any subset of stalled streams, any amount of data in flight, any transport capacity, any interleaving, stalls of any simulated length.",
 "No test stalls a stream while using another; the effect depends on transport capacity and interleaving.",
 [C,S,FC],[("connection reads the socket regardless of stream readers",C),("per-stream credit",FC),("per-stream bounded command channels polled fairly",C)],
 [],["completion of unrelated streams while others are stalled"])

p("P09","Stream identifiers are unique and announced once",
 "Streams opened by a client carry odd and by a server even non-zero identifiers, strictly increasing and never reused for the life of the connection; when the identifier space is used up, opening fails with an error instead of wrapping around. The first frame of a stream opened locally announces it (SYN) — only a reset may stand alone, when the handle is dropped before anything was announced — and no later frame of that stream does.",
 ["schedules","histories"],
 "All histories of opening, using, closing and dropping streams on both sides, all interleavings of their first frames with other traffic, including histories that exhaust the identifier space.",
 "Exhaustion takes two billion opens and no test looks at SYN flags on the wire; which operation sends the first frame depends on the schedule.",
 [C,S,H],[("next_stream_id with checked increment",C),("lazy SYN flag on the first frame",S)],
 [("next_id","next identifier to assign",C)],["Stream::id","SYN flags on the simulated wire"],
 "cfg(yamux_sim): start the identifier counter near its end")

p("P10","Acknowledgement and the backlog of 256",
 "An inbound stream is acknowledged exactly once, on the first frame the accepting application causes on it and not before (a handle dropped at once is ended or reset without an acknowledgement), and both ends report the pending-acknowledgement state accordingly. An endpoint never has more than 256 outbound streams open that the peer has neither acknowledged, finished nor reset; further opens wait, and a waiting open proceeds (its task is woken) as soon as any of those streams is acknowledged, finished, reset, closed or dropped.",
 ["schedules","histories"],
 "All orders in which streams are opened, used, acknowledged (by data, window update or close), reset, closed and dropped on either side, with the opener on its own task.",
 "The two ack tests run one fixed sequence in which the acknowledgement is a data frame and the opener shares the connection's task.",
 [C,S],[("ack_backlog count over streams",C),("ACK flag set on first frame",S),("backlog waker",C)],
 [("State::Open.acknowledged","acknowledgement state",S)],["ACK flags on the simulated wire","Connection::poll_new_outbound","Stream::is_pending_ack"])

p("P11","The stream limit holds and slots come back",
 "A connection never has more live streams, inbound and outbound together, than the configured maximum: opening beyond it fails with a too-many-streams error, and a peer opening beyond it is refused without a stream surfacing and without harm to existing streams' data. A slot is free again once the local application has let go of the stream.",
 ["schedules","histories","configurations"],
 "All limits including zero and one, all interleavings of inbound and outbound opens with drops and closes on both sides.",
 "prop_max_streams only opens outbound streams sequentially to the limit; inbound overflow, mixed directions and slot reuse are not covered.",
 [C,L],[("limit checks on open and on SYN frames",C),("removal on drop",C)],
 [("Active.streams","live streams",C)],["poll_new_outbound","poll_next_inbound","GoAway frames on the wire"])

p("P12","Protocol violations are refused without effect",
 "A frame that breaks the protocol (a new stream with an identifier of the wrong side or zero or already in use, more data than the granted window, credit that overflows the window, an unsolicited or mismatched ping answer) is answered with a go-away carrying an error code and has no effect visible to the application: no stream surfaces, no byte of it is readable, no credit changes. An undecodable or oversized frame ends the connection with an error.",
 ["inputs","histories"],
 "All positions of a violating frame in all histories of otherwise legal traffic, all boundary values of lengths, credits and identifiers, all fragmentations.",
 "No test sends an illegal frame; off-by-one limits only show at exact boundary values in a particular window state.",
 [C,FC,RTT,IO,H],[("validity checks in on_data/on_window_update/handle_pong",C),("consume_receive_window / increase_send_window_by checked arithmetic",FC),("header decoding and maximum body length",IO)],
 [],["go-away frames on the wire","poll_next_inbound result","bytes readable by the application"])

p("P13","Hostile input cannot crash or exhaust an endpoint",
 "Whatever bytes a peer sends, in whatever fragmentation and at whatever point it stops, the endpoint never panics and never loops without end. Memory held for the connection stays bounded by the advertised receive windows, the stream limit, one maximum-size frame and a fixed per-connection and per-stream overhead, even if the peer never reads what is sent to it.",
 ["inputs","fault_sequences","histories"],
 "All byte sequences (arbitrary, mutated-valid and structured-hostile), all fragmentations, peers that never read, flood pings or SYNs, or vanish mid-frame.",
 "Past advisories (panic on oversized first frame, unbounded pending frames) were found in code all tests passed; tests only speak valid yamux.",
 [C,IO,H,S,FC],[("body length cap before allocation",IO),("reply queue bound",C),("stream limit",C),("receive window enforcement",FC)],
 [],["panics","allocator counters of the simulated endpoint"])

p("P14","Graceful close delivers everything, then says goodbye",
 "Closing a connection completes; every byte whose write had been accepted before the close, on any stream, is transmitted ahead of a single final normal-termination go-away, nothing is sent after that, and the transport is closed once. The peer reads all of those bytes and then end of stream on every stream and sees the connection end without error; on the closing side blocked stream operations finish, new opens fail, and closing again succeeds.",
 ["schedules","histories","configurations"],
 "Close at every point of every workload, from either side or both at once, with frames queued, partially written or blocked on a full transport, in all interleavings.",
 "One unit test drains a hand-built queue on a socket that never blocks; closing under back-pressure, with a half-written frame, or with tasks blocked on streams is not exercised.",
 [CL,C],[("Closing drains stream channels, appends go-away, flushes, closes",CL),("pending frames carried over into closing",C)],
 [("Closing.pending_frames","frames still to be written",CL)],["wire after poll_close","peer's reads","poll_next_inbound on the peer"])

p("P15","Connection failure is reported once and releases everyone",
 "If the transport fails or ends at any point, or the peer says go-away, the connection ends: a clean end (end of transport at a frame boundary, or go-away) is reported as no more streams, anything else as one error, and afterwards every poll keeps reporting closed. Every blocked read, write and open is woken and finishes; writes and opens fail; bytes received before the failure stay readable, followed by end of stream, if and only if read-after-close is enabled; dropping the connection object has the same effect on its streams.",
 ["fault_sequences","crash_points","schedules","configurations"],
 "A transport error, truncation or disconnect at every byte offset and every I/O call in every workload, go-away at any time, connection dropped at any time, for both settings of read-after-close.",
 "Tests never inject a transport error; which tasks are blocked at the moment of failure depends on the schedule.",
 [C,CU,S],[("Cleanup and drop_all_streams",C),("state Closed wakes reader and writer",C),("read_after_close checks",S)],
 [("ConnectionState","active / closing / cleanup / closed",C)],["poll_next_inbound, poll_new_outbound, poll_close","Stream read/write results after failure"])

p("P16","The byte stream on the transport is always well-formed",
 "The bytes an endpoint hands to the transport are at all times a prefix of a sequence of complete, legal frames: valid header, stated length equal to the payload, data payload within the configured split size, nothing but a reset on a stream before its announcement and nothing after its end. This holds however the transport fragments or delays writes; queued frames are flushed even when the endpoint goes idle, and once the transport has reported an error it is not used again.",
 ["schedules","fault_sequences","configurations"],
 "All short-write, pending, flush and error patterns of the transport, all mixes of data, control and closing frames, all split sizes.",
 "The codec tests write to an in-memory cursor that accepts everything at once; resuming after a partial header or body write, and errors in the middle of a frame, are not covered.",
 [IO,C,S,H],[("WriteState header/body offsets",IO),("flush while waiting",C),("split_send_size in poll_write",S),("header encoding",H)],
 [("WriteState","progress of the frame being written",IO)],["bytes accepted by the simulated transport"])

p("P17","Pings are answered and round-trip probes are paced",
 "Every ping request addressed to the session is answered exactly once, in order, with the same opaque value, even under heavy data traffic and back-pressure. The endpoint's own probes have at most one outstanding at a time, are not repeated sooner than ten seconds after the previous answer, and never disturb a connection whose peer answers late.",
 ["schedules","inputs","fault_sequences"],
 "All opaque values, all numbers and timings of pings relative to data, all delays of answers, over simulated hours.",
 "No test sends a ping or waits ten seconds; crossing pings under back-pressure need a specific interleaving.",
 [RTT,C],[("next_ping / handle_pong state machine",RTT),("on_ping reply",C),("reply queue ahead of data",C)],
 [("RttState","waiting or awaiting pong",RTT)],["ping frames on the wire against simulated time"])

p("P18","Any spec-conforming peer is served correctly",
 "An endpoint interoperates with every legal use of the yamux specification, also those it never produces itself: streams announced or acknowledged by window updates with or without extra initial credit, FIN or RST carried on either frame type and together with data or SYN, empty data frames, zero-credit updates, and several pings in flight. The application sees exactly the streams, bytes, ends and credit that the specification assigns to the frames received.",
 ["inputs","schedules","histories"],
 "All legal frame sequences of a conforming peer within the credit it was given, in every fragmentation and every interleaving with local activity.",
 "All existing tests pair the implementation with itself, so code paths for frames it does not emit are never run.",
 [C,S,H],[("on_data and on_window_update flag handling",C),("additive initial credit",C),("update_state transitions",S)],
 [],["application-visible transcript against an executable reference model of the specification"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
