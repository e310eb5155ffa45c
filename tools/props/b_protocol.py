CO = "milter/core/"
DEC, CDEC, RDEC = CO + "milter-decoder.c", CO + "milter-command-decoder.c", CO + "milter-reply-decoder.c"
MCD, MRD, MLD = "milter/manager/milter-manager-control-command-decoder.c", "milter/manager/milter-manager-control-reply-decoder.c", "milter/manager/milter-manager-launch-command-decoder.c"
RD, WR, AG = CO + "milter-reader.c", CO + "milter-writer.c", CO + "milter-agent.c"
P = [
dict(id="C01", title="Decoding a packet never touches memory outside that packet",
 statement="Whatever bytes a peer sends as a packet's content (milter command, milter reply, control command, control reply, launch command), decoding it never reads or writes outside the bytes received for that packet, nor outside a fixed-size local such as a socket address, and every string passed on is terminated inside the packet.",
 over=["inputs"], text="every packet content of every length, including truncated, unterminated and empty ones, for every command and reply opcode",
 why="Tests decode well-formed packets and a few truncated ones; an overread needs a specific malformed byte sequence and is not visible in a test's result.",
 files=[DEC, CDEC, RDEC, MCD, MRD, MLD],
 mech=[("bounds checks of the decoders", CDEC + ", " + RDEC), ("shared string checks", DEC)],
 observe=["memory safety of the decoder entry points"],
 technique="interval and length-relation dataflow over the decoders' control-flow graphs: every dereference, copy and string operation is an obligation against the received length",
 note="Each access reachable from a decoder's decode virtual function is an obligation; locals with a fixed size are bounded as well."),
dict(id="C02", title="The packet decoder frames the stream exactly and reports every failure",
 statement="However the byte stream is cut into chunks, the decoder consumes a 4-byte big-endian length, then exactly that many content bytes, hands each complete packet to the command or reply decoder exactly once and in order, keeps the unconsumed rest for the next chunk, and goes back to reading a length. If the content is rejected decoding stops with FALSE and an error set; ending in the middle of a length or a content is reported as an error, ending between packets is not.",
 over=["inputs", "histories"], text="every partition of every byte stream into decode calls, every packet length, ending at any point",
 why="The partitions of a stream and ends at every point are unbounded; tests feed a few whole packets.",
 files=[DEC, AG], mech=[("framing state machine", DEC + ": milter_decoder_decode, milter_decoder_end_decode"), ("feeding it", AG + ": the handler of the reader's flow signal")],
 state=[("decoder state", "whether a length or a content is being collected, how many bytes are awaited, and the rest", DEC)],
 observe=["signals emitted per packet", "the GError of decode and end_decode"],
 technique="typestate analysis of the framing loop by abstract interpretation (header, content, rest), with the byte-order expression folded and compared",
 note="Decides framing, order and error contract of the shared decoder; the content is C01's part."),
dict(id="C35", title="Stream reader and writer pass bytes on unchanged, once and in order",
 statement="Bytes read from a channel are handed to the flow handlers exactly as read and before the end or an error is reported; bytes given to the writer are written in order, and exactly those reported as written leave its buffer, the rest staying for the next readiness; a flush is done once everything before it is written; each error and the end of the stream is reported, and nothing is read or written on a watch whose object was shut down.",
 over=["fault_sequences", "histories", "schedules"], text="every outcome of every channel operation (partial write, would-block, error, end of stream) in every state of the buffer and the watches, including a shutdown requested from within a handler",
 why="Partial writes, would-block results and errors at each point cannot be forced by the unit tests, which use in-memory channels.",
 files=[RD, WR, AG], mech=[("watch callbacks", RD + ", " + WR), ("forwarding", AG)],
 state=[("pending bytes and flush point", "what was accepted for writing and where a flush was asked", WR)],
 observe=["bytes on the channel", "flow, flushed, error and finished signals"],
 technique="abstract interpretation of each entry point and watch callback over all channel outcomes; the effects on buffer, watches and signals are compared with the specification",
 note="Assumes that registering a watch succeeds and that GIOChannel reports failures through its GError argument."),
dict(id="C03", title="Encoded packets have exactly the length and layout of the milter protocol",
 statement="Every packet the encoders build (milter commands, milter replies, control commands and replies, launch commands) is a 4-byte big-endian length equal to the number of bytes that follow, the opcode (or keyword and NUL) of the packet, and the arguments in protocol order: strings with their terminating NUL, binary blocks with exactly their given size, integers in network byte order, a socket address by its family; optional parts appear exactly when they are given. Nothing of a previously encoded packet remains.",
 over=["inputs"], text="every encoder with every combination of absent and present arguments, for arguments of any length and content",
 why="Tests compare a few packets with fixed contents; a wrong length or a stale byte needs a particular combination of arguments or a previous packet.",
 files=[CO + "milter-encoder.c", CO + "milter-command-encoder.c", CO + "milter-reply-encoder.c", "milter/manager/milter-manager-control-command-encoder.c", "milter/manager/milter-manager-reply-encoder.c", "milter/manager/milter-manager-launch-command-encoder.c"],
 mech=[("encoders", CO + "milter-command-encoder.c, " + CO + "milter-reply-encoder.c"), ("length prefix", CO + "milter-encoder.c: milter_encoder_pack")],
 observe=["packet and packet size returned by each encode function"],
 technique="abstract interpretation of every encoder into a symbolic byte sequence compared with the protocol's layout",
 note="GString and byte-order functions are modelled; the sequence of symbolic pieces is compared as a whole."),
dict(id="C04", title="Each packet type is decoded to its signal with every field from its place",
 statement="A packet of each type (milter commands and replies, control commands and replies, launch commands) makes the decoder emit exactly its one signal, whose arguments are the fields at the protocol's positions (strings up to their NUL, blocks to the packet's end, big-endian integers, the connection's socket address by family, macros as name and value pairs with braces removed, negotiated macro requests by stage). A well-formed packet is never refused; a packet of an unknown type, with a missing NUL, an empty mandatory field, a wrong family, macro stage or reply code, or extra content where none is allowed emits nothing and is refused.",
 over=["inputs"], text="every packet type with content of any length, any number of macros or macro requests, for every optional part",
 why="Tests decode a few sample packets per type; field positions after variable-length parts and refusal of every malformed shape cannot be sampled.",
 files=[DEC, CDEC, RDEC, MCD, MRD, MLD], mech=[("decoders", CDEC + ", " + RDEC), ("shared string search and length check", DEC)],
 observe=["decoder signals and their arguments", "result of milter_decoder_decode"],
 technique="abstract interpretation of each decode virtual function per packet type over a symbolic packet; emitted arguments are compared as linear expressions of the packet with the protocol table",
 note="Positions are linear expressions over the positions of NULs; repeated groups are kept relative to the loop's position. glib string functions are modelled."),
]
