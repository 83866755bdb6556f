prop("A01", "Stored artifacts read back as the value that was written",
 "Any value written as an artifact (to bytes, a file, a stream or a pipe, compressed or not) and left untouched is read back equal to what was written by every matching reader. The reported size is the size stored.",
 ["inputs", "configurations"], "every serialisable value of any size and shape, both compression settings, every writer/reader pair",
 "The tests round-trip one small struct; sizes, shapes and where the compressed payload ends relative to the reader's buffers are unbounded.",
 [IO+"lib.rs", IO+"envelope.rs", IO+"compress.rs"],
 [("serialise/deserialise through the framed container", IO+"lib.rs: serialize_to_bytes, serialize_to_file, deserialize_from_bytes, deserialize_from_file"), ("frame header", IO+"envelope.rs: write_envelope, parse_header")],
 "runtime oracle: write/read-back comparison over generated artifacts", "exploration",
 "Held on every generated value/compression/reader combination, including payloads tuned to the reader's buffer boundaries; trusts serde equality of the generated types.",
 ["serialize_to_bytes/file, deserialize_from_bytes/file, read_msgpack_reader, stdout/stdin pipe"])
prop("A02", "A damaged artifact is never read as a different value",
 "When a stored artifact is altered or cut short, reading it either fails with an error or still yields exactly the value that was stored; it never yields a different value. This holds for reads from memory and from a file alike.",
 ["inputs", "fault_sequences"], "every artifact, every bit flip or burst, every truncation point, every header field, both readers",
 "The tests damage one byte of one artifact; which byte is hit and where the reader stops reading matter.",
 [IO+"lib.rs", IO+"envelope.rs"],
 [("checksum over the whole payload", IO+"lib.rs: Crc32cReader, deserialize_from_bytes, deserialize_from_file"), ("header validation", IO+"envelope.rs: parse_header, verify_crc")],
 "corruption injection with a differential oracle on the decoded value", "exploration",
 "Every truncation point, every payload byte and every header bit of small artifacts, random damage of large ones; CRC collisions (2^-32) are outside.")
prop("A03", "Every released artifact format stays readable, and the written one stable",
 "Artifacts in any released layout - framed, framed and compressed, bare compressed, raw - are recognised and read to the value they encode, whatever their length, by both the memory and the file reader. Newly written artifacts keep the documented frame layout (identifier with format version, flags, payload length, payload checksum, all little-endian), and a frame declaring more payload than there is is refused.",
 ["inputs", "configurations"], "every value, every released layout, every artifact length from one byte up, both readers",
 "The tests write with the code that reads, so a symmetric change of the layout passes; they use one value per legacy layout.",
 [IO+"lib.rs", IO+"envelope.rs", IO+"compress.rs"],
 [("format detection", IO+"envelope.rs: detect_format"), ("legacy fallbacks", IO+"lib.rs: deserialize_from_bytes, deserialize_from_file")],
 "differential monitoring against an independent encoder/decoder of the layouts", "exploration",
 "The independent codec in harness/src/art.rs is trusted to state the released layout.")
prop("A04", "A circuit bundle reads back exactly, and damage to it is noticed",
 "A bundle written with circuit, witness solver, optional verifying key, metadata and version reads back with exactly those contents through every bundle reader, whatever the blob contents and compression setting; key presence is reported truthfully. A bundle with a missing part, a truncated compressed part or a damaged manifest is refused rather than read as something else.",
 ["inputs", "configurations", "fault_sequences"], "every blob content and length (including contents that resemble a container format), every flag combination, every component damaged",
 "The tests use two short ASCII blobs; blob contents decide how a bundle is read because compression is auto-detected.",
 [IO+"bundle.rs", IO+"compress.rs"],
 [("bundle write/read", IO+"bundle.rs: write_bundle, write_bundle_with_vk, read_bundle, read_circuit_blob, read_vk_only, bundle_has_vk, read_bundle_metadata")],
 "runtime oracle: write/read-back comparison and component damage injection", "exploration",
 "Held on all generated bundles; uncompressed blobs carry no checksum by design, so damage inside them is outside the property.")
prop("A05", "A failed write leaves nothing behind and is never reported as success",
 "When any filesystem operation of a bundle write fails - disk full, I/O error, size limit, unserialisable or panicking metadata - the call reports failure and removes everything it created, leaving whatever was there before untouched. A write that reports success has stored all of its bytes, short and interrupted writes included, and a failing read is reported as an error.",
 ["fault_sequences", "inputs"], "every filesystem call made by a write or read, every failure kind, one-off or persistent, every bundle shape",
 "Tests run on a healthy disk; no test makes any filesystem call fail.",
 [IO+"bundle.rs", IO+"compress.rs", IO+"lib.rs"],
 [("rollback guard", IO+"bundle.rs: WriteGuard"), ("explicit finish of buffered/compressed streams", IO+"compress.rs: MaybeCompressed::finish")],
 "fault injection at every filesystem call (interposed), all-or-nothing oracle", "fault_enumeration",
 "Every filesystem call of each generated workload is failed in turn; the interposer logs calls so that coverage is observed, not assumed.")
prop("A06", "A crash while writing never leaves a bundle that reads as complete but is not",
 "If the process dies at any moment of writing a bundle, reading the leftover directory either fails or returns exactly the complete contents that were being written. A leftover of an interrupted single-artifact write likewise is refused or reads as the full value.",
 ["crash_points", "inputs"], "every instant before, during and after each filesystem call of the write, every bundle shape",
 "No test kills a writer.",
 [IO+"bundle.rs", IO+"lib.rs"],
 [("manifest is written last", IO+"bundle.rs: write_bundle_inner order of writes"), ("length and checksum in the frame", IO+"envelope.rs")],
 "crash injection before/mid/after every filesystem call, reader as oracle", "fault_enumeration",
 "Process death only (completed writes survive); power loss with reordered writes is not modelled.")
prop("A07", "The compressed stream codec returns exactly the bytes written",
 "Bytes written through the (optionally compressing) writer in any pieces, with any flushes, and finished, are read back identically by the auto-detecting reader and by the in-memory decoder, read in any pieces. A compressed stream cut short is reported as an error, never as shorter data.",
 ["inputs", "histories"], "every byte string that does not itself begin like a compressed stream when stored plain, every sequence of write/flush/read sizes",
 "The tests make at most one write of one small buffer.",
 [IO+"compress.rs"],
 [("compressing writer and auto-detecting reader", IO+"compress.rs: compressed_writer, MaybeCompressed, auto_reader, auto_decompress_bytes, maybe_compress_bytes")],
 "runtime oracle over random write/flush/read histories", "exploration",
 "Held on all generated histories; plain contents beginning with the compression magic are excluded because the format cannot distinguish them.")
prop("A08", "Racing bundle writers: one wins, and no reader ever sees a mixture",
 "When several writers create the same bundle path concurrently, from threads or processes, exactly one succeeds, the others fail without disturbing it, and the final contents are exactly the winner's. A concurrent reader sees either an error or exactly the winner's complete bundle.",
 ["schedules", "inputs"], "every interleaving of 2-5 writers and readers on one path",
 "The tests are single-threaded.",
 [IO+"bundle.rs"],
 [("exclusive directory creation and guarded rollback", IO+"bundle.rs: WriteGuard::create_dir, Drop")],
 "schedule stress with injected delays, offline history checker", "exploration",
 "Interleavings are sampled (threads and processes with random pauses before every filesystem call), not enumerated.")
prop("A09", "Hostile artifact bytes cannot crash, corrupt memory or exhaust it",
 "Reading arbitrary or maliciously crafted bytes as an artifact, bundle or compressed stream always returns a value or an error: no panic, no memory error, no endless loop. A length claimed by the input never makes the reader reserve memory out of proportion to the input's real (decompressed) size.",
 ["inputs"], "every byte string and every file content",
 "The tests feed one corrupted artifact; crafted lengths, nesting and compressed frames are not tried, and no test runs under a sanitizer.",
 [IO+"lib.rs", IO+"envelope.rs", IO+"compress.rs", IO+"bundle.rs"],
 [("bounded header parsing", IO+"envelope.rs: parse_header, detect_format")],
 "AddressSanitizer plus counting-allocator and panic monitors over hostile inputs", "exploration",
 "Rust and bundled C code run under ASan, and natively with overflow checks and an allocation monitor; input space is sampled by structure-aware mutation.")
