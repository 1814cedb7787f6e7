import json
E="netcode/encoder.hh"; D="netcode/decoder.hh"; DD="netcode/detail/decoder.cc"; DE="netcode/detail/encoder.cc"
P="netcode/detail/packetizer.hh"; G="netcode/detail/galois_field.hh"; I="netcode/detail/invert_matrix.cc"
SL="netcode/detail/source_list.hh"
L=[]
def p(id,title,stmt,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=False
    L.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
NET="all data sizes and contents, all four field sizes, all loss/duplication/reordering/delay/partition schedules on both directions, ordered and unordered receivers, systematic and non-systematic senders"
p("C01","Delivered data is byte-exact",
 "Whatever the network loses, duplicates, reorders or delays, every block handed to the receiving application is exactly one of the blocks the sending application submitted on that flow: same bytes, same length. This holds for blocks received directly and for blocks rebuilt from repairs, for the field sizes 4, 8, 16 and 32 (block sizes multiple of 2 for 16 and of 4 for 32), and however the sender's window, rate and mode change meanwhile.",
 ["schedules","fault_sequences","inputs","configurations"],NET,
 "Corruption appears only for particular combinations of which sources are missing, which repairs overlap, their arrival order and their sizes; tests sample a handful of fixed arrival orders, mostly with one field size.",
 [DD,DE,G,I,P],[("recovery by elimination","netcode/detail/decoder.cc attempt_full_decoding, add_source_recursive, create_source_from_repair"),("subtracting known data from a repair","netcode/detail/decoder.cc remove_source_data_from_repair"),("field arithmetic","netcode/detail/galois_field.hh")],
 "data handler of the decoder", [("pending repairs","repairs with the not yet known ids they still mix","netcode/detail/decoder.hh m_repairs"),("known sources","data that can still be subtracted","netcode/detail/decoder.hh m_sources")])
p("C02","Each submitted block is delivered at most once",
 "For any pattern of duplicated, delayed and reordered sources and repairs, a receiver hands each submitted block to the application at most once.",
 ["schedules","fault_sequences","configurations"],"all delivery schedules including arbitrarily late duplicates of sources and of repairs, before and after the receiver has discarded old state",
 "Late duplicates must meet a receiver that has already discarded the state that would recognise them; the tests use a few immediate duplicates.",
 [DD],[("recognising already processed or outdated packets","netcode/detail/decoder.cc decoder::operator()"),("discarding outdated state","netcode/detail/decoder.cc drop_outdated")],
 "data handler of the decoder",[("low-water mark","ids below it are never delivered any more","netcode/detail/decoder.hh m_last_id")])
p("C03","An in-order receiver never reorders and never skips what is still recoverable",
 "An in-order receiver delivers blocks in strictly increasing submission order. It skips a block only when a repair it received no longer covers that block nor any older one (the sender gave it up), and a skipped block is never delivered afterwards.",
 ["schedules","fault_sequences","configurations"],"all schedules of sources and repairs, bounded and unbounded sender windows changed at run time",
 "The order in which recovered, queued and outdated blocks are flushed depends on the interleaving of losses, recoveries and window movements.",
 [DD],[("ordering queue","netcode/detail/decoder.cc flush_ordered_sources, drop_outdated"),("delivery of directly received and rebuilt sources","netcode/detail/decoder.cc add_source_recursive, attempt_full_decoding")],
 "data handler of an in-order decoder",[("next id to deliver","first id not yet handed over in order","netcode/detail/decoder.hh m_first_missing_source_in_order")])
p("C04","A received block is never lost or withheld by the receiver",
 "When a source packet arrives whose block was not delivered before and which is not older than everything the latest repair covers, an unordered receiver delivers it during that very call. An in-order receiver delivers it at the latest during the call in which every earlier block has been delivered or given up by the sender.",
 ["schedules","fault_sequences","configurations"],"all schedules and loss patterns",
 "A block can be dropped in a corner of the recovery/queueing interplay (for instance when its arrival triggers the recovery of the gap before it); this needs specific loss patterns.",
 [DD],[("accepting a source","netcode/detail/decoder.cc operator()(decoder_source&&), add_source_recursive"),("ordering queue","netcode/detail/decoder.cc flush_ordered_sources, drop_outdated")],"data handler of the decoder")
p("C05","Everything the received packets determine is recovered at once",
 "Whenever the repairs a receiver has received and not outdated, together with the blocks it knows, determine all the unknown blocks those repairs cover (full rank over the field), or a single repair has only one unknown block left, those blocks are recovered during that call. They are then delivered under the same rule as received blocks; a linearly dependent repair never costs an independent one.",
 ["schedules","fault_sequences","configurations"],"all loss patterns and arrival orders of sources and repairs, all field sizes including those where repairs are frequently dependent",
 "Whether a set of repairs has full rank depends on ids, field size and arrival order; tests use two or three hand-computed sets.",
 [DD,I,G],[("elimination","netcode/detail/invert_matrix.cc invert"),("choice of repair to drop when singular","netcode/detail/decoder.cc attempt_full_decoding"),("peeling of single-unknown repairs","netcode/detail/decoder.cc add_source_recursive")],"data handler of the decoder")
p("C06","Once faults stop the flow drains within a bounded number of rounds",
 "After any history of faults, once packets get through again, every block still in the sender's window is delivered and the window becomes empty within a number of lossless repair/ack rounds bounded by the number of missing blocks (plus the repairs that are linearly dependent in the chosen field). No history of loss, duplication, reordering, partition or reconfiguration leaves a flow stuck.",
 ["fault_sequences","schedules","histories"],"every fault history followed by a fault-free suffix",
 "Stalls come from state left by earlier faults; unit tests start from fresh objects and do not measure progress.",
 [E,D,DD,SL],[("repairs cover the whole window","netcode/detail/encoder.cc"),("acks release the window","netcode/encoder.hh notify_impl, netcode/detail/source_list.hh erase"),("ack generation","netcode/decoder.hh generate_ack")],"encoder window() and data handler after a lossless suffix")
p("C07","Acks tell the truth",
 "Every id listed in an ack is a block the receiver has delivered, or holds and will deliver as soon as ordering permits; no other id is ever acknowledged. An ack lists every block known before the current packet that is not outdated, and its packet count is exactly the number of source and repair packets received since the previous ack (65535 if there were more).",
 ["schedules","fault_sequences","histories"],"all receive histories, forced and automatic acks, contiguous, sparse and very distant ids",
 "A wrong id list makes the sender drop data for ever; it depends on the exact set held at the instant of the ack and on the compression of that set.",
 [D,P,"netcode/detail/ack.hh"],[("ack content","netcode/decoder.hh generate_ack"),("id list compression","netcode/detail/packetizer.hh write(const source_id_list&), read_ids")],"ack datagrams emitted by the decoder")
p("C08","The sender's window is exactly what is neither acknowledged nor evicted",
 "At any time the window holds exactly the submitted blocks that no received ack has listed and that have not been evicted. It never exceeds the configured limit after a submission, even when the limit is lowered at run time, evicts only when the limit forces it, and always evicts the oldest first; duplicated, stale, reordered or partly overlapping acks change nothing else.",
 ["histories","fault_sequences","configurations"],"all interleavings of submissions, limit changes and (duplicated, delayed, lost) acks",
 "Window bookkeeping depends on the order of acks, evictions and reconfigurations; tests use fixed short sequences.",
 [E,SL],[("eviction","netcode/encoder.hh commit_impl"),("ack processing","netcode/detail/source_list.hh erase")],"encoder window() and the id list of the next repair")
p("C09","The sender emits exactly the packets its configuration promises",
 "A submission emits the block itself first in systematic mode, or a repair in its place in non-systematic mode, then one more repair exactly after each rate-th submission; a forced repair emits one repair; nothing else is ever emitted and an ack emits nothing. Source ids and repair ids count up from 0 without gap or reuse, every repair lists exactly the blocks in the window at that time, and each datagram is handed over as complete chunks followed by one end mark. A sender that was not configured is systematic, adds a repair every 5 blocks, keeps every unacknowledged block and is not adaptive.",
 ["histories","configurations"],"all histories of submissions, acks, forced repairs and run-time changes of mode, rate and window",
 "The interaction of run-time reconfiguration with counters only shows over long mixed histories.",
 [E,P],[("emission policy","netcode/encoder.hh commit_impl, generate_repair"),("serialisation","netcode/detail/packetizer.hh")],"packet handler of the encoder")
p("C10","Both sides interoperate with an independent implementation of the wire format",
 "Every source, repair and ack emitted is, byte for byte, the documented big-endian encoding, and a repair's symbol and size are the documented linear combination (coefficient a fixed function of repair id and source id) of the blocks it lists. Conversely a sender or a receiver driven by an independent peer that uses the same format, including other legal run-length splits of the id lists, behaves as with its own peer.",
 ["inputs","histories","schedules"],"all block sizes, window shapes (contiguous, sparse, distant ids, long runs), field sizes and peers",
 "A change applied symmetrically to writer and reader passes every round-trip test and still breaks deployed peers.",
 [P,DE,G,"netcode/detail/packet_type.hh"],[("wire format","netcode/detail/packetizer.hh"),("linear combination","netcode/detail/encoder.cc"),("coefficients","netcode/detail/galois_field.hh coefficient")],"packet handlers; reference peer feeding decoder and encoder")
p("C11","Automatic acks follow packet count and monotonic time only",
 "After each delivered block the receiver sends an ack exactly when the configured number of packets arrived since the last ack, or when the configured period (if not zero) has elapsed since the last automatic ack (or since construction); otherwise it sends none. Only elapsed time counts: wall-clock jumps, forwards or backwards, neither trigger nor delay an ack. A receiver that was not configured acknowledges every 50 packets or 100 ms.",
 ["schedules","fault_sequences","configurations"],"all arrival times, clock jumps, slow application handlers, run-time changes of period and count",
 "Needs control of the clock; the tests cannot wait and never change the clock.",
 [D],[("ack policy","netcode/decoder.hh maybe_ack, handle_source")],"ack datagrams emitted by the decoder against simulated clocks",[("last ack date","monotonic date of the last automatic ack","netcode/decoder.hh m_last_ack_date")])
p("C12","The adaptive rate tracks the measured loss",
 "In adaptive mode, after each ack the sender's rate is 50 when the loss since the previous ack (packets sent minus packets the ack counts, over packets sent) is below 1% or nothing was sent, and otherwise the reciprocal of twice the loss rounded up. This holds for lost, duplicated and reordered acks, acks counting more packets than were sent, and any number of packets between acks; when adaptive mode is off acks never change the rate.",
 ["histories","fault_sequences"],"all histories of sends and acks, including more than 65536 packets between two acks",
 "The estimate depends on the whole history between acks; the tests check two short exchanges.",
 [E],[("loss estimation","netcode/encoder.hh notify_impl, rate_for_loss")],"encoder rate() and repair cadence",[("sent since last ack","number of packets sent since the last ack","netcode/encoder.hh m_nb_sent_packets")])
p("C13","Malformed datagrams are contained",
 "Feeding any non-empty byte string as a packet to a sender, a receiver or the dispatcher never reads or writes outside its buffers, crashes or hangs. A datagram cut short before its last byte raises the overflow error and one of unknown type the packet type error; in both cases nothing is delivered, nothing is emitted and the state is unaffected, so the session goes on as if it had never arrived.",
 ["inputs","fault_sequences","histories"],"all truncations, bit flips and arbitrary bytes, at any point of any session",
 "The damaging inputs must hit a receiver in a particular state (known sources, pending repairs); tests try a few truncated packets on a fresh object.",
 [P,DD,D,E,"netcode/detail/packet_type.hh"],[("bounds checks when parsing","netcode/detail/packetizer.hh read, read_ids"),("size handling in recovery","netcode/detail/decoder.cc")],"sanitised execution, exceptions, later behaviour of the session")
p("C14","Packets are routed by type and report exactly the bytes they occupy",
 "The dispatcher gives acks to the sender and sources and repairs to the receiver; a sender rejects sources and repairs and a receiver rejects acks with the packet type error (which, in C++, carries the rejected packet) and without side effect. A processed packet returns exactly the number of bytes its peer emitted for it, and bytes following it in the buffer change neither the returned count nor the behaviour.",
 ["inputs","histories","schedules"],"all packets of all sessions, misrouted at any time, with and without trailing bytes",
 "Duplex sessions with mixed traffic in arbitrary order are never exercised by the tests.",
 ["netcode/dispatch.hh",D,E,P],[("routing","netcode/dispatch.hh dispatch"),("consumed bytes","netcode/detail/packetizer.hh read_*")],"return values, exceptions, window and deliveries in duplex sessions")
p("C15","The C interface behaves exactly like the C++ interface",
 "Given the same history of calls, times and received bytes, the C and C++ senders emit identical datagrams and report the same window, the C and C++ receivers deliver identical blocks and emit identical acks, and both report the same byte counts. Each C++ exception maps to its documented C error code with a zero result, and a successful call always resets the error to no error.",
 ["histories","configurations","fault_sequences"],"all histories incl. malformed and misrouted packets and run-time reconfiguration",
 "The tests of the C interface only create and delete objects.",
 ["netcode/c/encoder.cc","netcode/c/decoder.cc","netcode/c/packet.cc","netcode/c/data.cc","netcode/c/detail/check_error.hh","netcode/c/detail/handlers.hh"],[("C wrappers","netcode/c/*.cc"),("error mapping","netcode/c/detail/check_error.hh")],"lock-step twin execution of both bindings")
p("C16","Running out of memory is reported, not fatal",
 "If any single allocation fails during any call, the C++ interface throws bad_alloc (constructors: any std::exception) and the C interface reports the no-memory error (constructors return NULL) or the call succeeds anyway; the process is never terminated and no memory is leaked or corrupted. Afterwards the objects are usable: no corrupted or duplicated block is ever delivered, no block is lost that was already accepted, and once memory is available the session drains again.",
 ["fault_sequences","crash_points","histories"],"every allocation of every call of a session as failure point",
 "Allocation failures cannot be provoked by the tests and can occur half way through any state change.",
 [DD,D,E,DE,"netcode/c/detail/check_error.hh","netcode/c/decoder.cc","netcode/c/encoder.cc","netcode/c/packet.cc","netcode/c/data.cc"],[("state changes in recovery","netcode/detail/decoder.cc"),("C constructors","netcode/c/*.cc"),("error mapping","netcode/c/detail/check_error.hh")],"allocator seam, error codes, later behaviour of the session")
p("C17","An exception thrown by an application handler does not damage the session",
 "When the application's packet handler or data handler throws, the exception reaches the caller of the library and the process is not terminated. Afterwards ids are not reused, no block is delivered corrupted, out of order or a second time, at most the block (or datagram) being handed over is lost, and the session drains once handlers stop throwing.",
 ["fault_sequences","crash_points","histories"],"every handler invocation of a session as throwing point",
 "Requires faults inside callbacks at arbitrary depth of the recovery; tests never throw.",
 [E,D,DD,P],[("submission","netcode/encoder.hh commit_impl"),("delivery while recovering","netcode/detail/decoder.cc")],"exceptions injected in handlers, later behaviour of the session")
p("C18","Sessions are independent under any interleaving",
 "Senders and receivers share no hidden state: for any number of sessions, on one or several threads (each object used by one thread at a time), and any interleaving of their operations down to individual handler invocations and allocations, each session emits and delivers exactly what it does when it runs alone.",
 ["schedules","configurations"],"all interleavings of concurrent and nested sessions",
 "The threaded test samples whatever schedule the machine happens to produce and interleaves no two sessions inside one call.",
 [E,D,DD,DE,P,G,"netcode/c/encoder.cc","netcode/c/decoder.cc"],[("per-object scratch buffers","netcode/detail/packetizer.hh, netcode/detail/decoder.hh"),("field tables","netcode/detail/galois_field.hh")],"handlers of all sessions under a controlled scheduler")
p("C19","A recorded session can be replayed from its dump",
 "With packet dumping enabled, the dump holds every packet given to the receiver, in order and unaltered; feeding the packets read back from it to a fresh receiver of the same configuration makes it deliver exactly the same blocks. The replay tool feeds every recorded packet in order, up to the first one its receiver rejects. A dump cut short by a crash, at any byte, or by a disk that becomes full yields the packets it wholly contains and never an altered one.",
 ["histories","crash_points"],"all receive histories and all cut points of the dump file",
 "The dump and the replay tool have no tests at all.",
 ["netcode/detail/serialize_packet.hh",D,"tools/replay.cc"],[("dump format","netcode/detail/serialize_packet.hh"),("replay loop","tools/replay.cc")],"dump file and packets fed to the replaying receiver")
p("C20","The statistics add up",
 "At any time the sender's counters equal the sources and repairs emitted and the acks accepted, and the receiver's counters equal the sources and repairs given to it and the acks emitted. The number of decoded blocks is exactly the number of blocks that became known without their source packet, and the number of missing blocks is the number of unknown blocks covered by retained repairs. A useless repair is one that was not outdated and whose blocks were all known when it came. Every setting reads back as last set (the rate: as last adapted; the packets between acks: 128 at most).",
 ["histories","fault_sequences"],"all histories",
 "Counters are updated at many sites of the recovery; tests read a few of them after short exchanges.",
 [E,D,DD],[("counters","netcode/encoder.hh, netcode/decoder.hh, netcode/detail/decoder.cc")],"counter accessors against counts of observed packets and deliveries")
p("C21","The lossy proxy forwards faithfully",
 "The lossy proxy forwards each datagram (of 1 to 4096 bytes) it does not drop exactly once, unaltered, in order and to the other side: to the server from its own outgoing port, and, once a client is known, to the address of the last client heard from its listening port. It drops exactly those its loss model selects, independently per direction. Its periodic reports equal the datagrams dropped and received, and interrupted waits, refused sends, spurious readiness, late timers and clock changes neither stop it nor make it lose, repeat or delay a datagram.",
 ["schedules","fault_sequences","inputs"],"all arrival interleavings on both sockets, datagram sizes up to the buffer size, loss models and timers",
 "The tools have no tests.",
 ["tools/lossy_proxy.cc","tools/loss/burst.hh","tools/loss/uniform.hh","tools/loss/stream.hh"],[("forwarding loop","tools/lossy_proxy.cc listen"),("loss models","tools/loss/*.hh")],"simulated sockets")
p("C22","The source forwarder forwards exactly the source payloads",
 "For any interleaving of sources, repairs, acks and foreign datagrams, the source forwarder sends exactly the payload of each well-formed source packet, unaltered and in arrival order, and nothing for any other datagram; a malformed source is never forwarded as stale or out-of-bounds bytes and never stops it. A source larger than its 4096-byte buffer is forwarded unaltered or not at all.",
 ["schedules","inputs"],"all datagram sequences, including truncated ones",
 "The tools have no tests.",
 ["tools/source_forwarder.cc",P],[("forwarding loop","tools/source_forwarder.cc main")],"simulated sockets")
p("C23","Delivered data is aligned on 16 bytes",
 "Every block handed to the application's data handler starts at a 16-byte aligned address, whether received directly, copied, or rebuilt from repairs, through the C and the C++ interface.",
 ["schedules","inputs","configurations"],"all schedules and packet constructions",
 "Alignment depends on the allocation and move history of the packet that ends up holding the block.",
 ["netcode/packet.hh",DD,"netcode/c/handlers.h","netcode/detail/buffer.hh","netcode/detail/symbol_alignment.hh"],[("symbol placement","netcode/packet.hh, netcode/detail/symbol_alignment.hh"),("rebuilt sources","netcode/detail/decoder.cc create_source_from_repair, attempt_full_decoding")],"pointer given to the data handler")
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in L))
