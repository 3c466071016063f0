#!/usr/bin/env python3
# Source of /verif/properties.jsonl (kept as code so that statements stay reviewable); run it to regenerate.
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
NODEC="The stable tests are checkasm (assembly against C for the DSP kernels) and header compile tests; none of them decodes a stream. "
p("C01","Intra-coded frames decode bit-exactly",
 "For every conforming AV1 stream made of key and intra-only frames (any profile, bit depth 8/10/12, chroma layout, size, superblock size, tiling), every output picture, before film grain, equals sample for sample the picture the AV1 specification defines. This covers partitioning, all intra prediction modes and edge filtering, palette, chroma-from-luma, filter-intra, intra block copy and the symbol contexts that select them.",
 ["inputs"],"every conforming intra-only stream",
 NODEC+"Correctness is over all syntax combinations of a block and its neighbours, which no sample set settles.",
 ["src/decode.c","src/recon_tmpl.c","src/ipred_prepare_tmpl.c","src/ipred_tmpl.c","src/intra_edge.c","src/msac.c","src/cdf.c","src/env.h"],
 [("block syntax","src/decode.c:decode_b"),("intra reconstruction","src/recon_tmpl.c:recon_b_intra"),("edge preparation","src/ipred_prepare_tmpl.c"),("context derivation","src/env.h")],
 observe=["Dav1dPicture.data from dav1d_get_picture"])
p("C02","Inter frames decode bit-exactly",
 "For every conforming AV1 stream with inter and switch frames, every output picture, before film grain, equals sample for sample the picture the AV1 specification defines. This covers reference selection, motion vector prediction (spatial, temporal, global), compound and masked prediction, inter-intra, overlapped and warped motion, scaled references and skip mode.",
 ["inputs","histories"],"every conforming stream and reference history",
 NODEC+"The result depends on a history of reference frames, motion fields and entropy contexts.",
 ["src/decode.c","src/recon_tmpl.c","src/refmvs.c","src/warpmv.c","src/wedge.c","src/mc_tmpl.c","src/obu.c"],
 [("motion vector candidates","src/refmvs.c"),("inter prediction","src/recon_tmpl.c:recon_b_inter"),("warp parameters","src/warpmv.c"),("wedge masks","src/wedge.c")],
 observe=["Dav1dPicture.data from dav1d_get_picture"])
p("C03","In-loop filters produce the specified samples",
 "For every conforming stream the deblocking filter, CDEF, super-resolution and loop restoration (in any combination, with any strengths, unit sizes, tilings, segment and block level deltas, and frame sizes including odd ones) leave exactly the samples the specification defines, both in the output picture and in the references used by later frames.",
 ["inputs"],"every conforming stream and filter parameter combination",
 NODEC+"checkasm compares kernels on isolated buffers; the selection of edges, levels, masks, borders and units around the kernels is not run.",
 ["src/lf_mask.c","src/lf_apply_tmpl.c","src/loopfilter_tmpl.c","src/cdef_apply_tmpl.c","src/cdef_tmpl.c","src/lr_apply_tmpl.c","src/looprestoration_tmpl.c","src/recon_tmpl.c"],
 [("filter masks and levels","src/lf_mask.c"),("application over superblock rows","src/recon_tmpl.c:filter_sbrow*"),("line buffers","src/cdef_apply_tmpl.c, src/lr_apply_tmpl.c")],
 observe=["Dav1dPicture.data from dav1d_get_picture"])
p("C04","Coefficients, quantisation and transforms are exact",
 "For every conforming stream the residual added to the prediction is exactly the specified one, for every transform size, type and set, coefficient value up to the coding limit, quantiser index, delta, quantiser matrix, segment override and lossless mode, in every bit depth.",
 ["inputs"],"every conforming stream; all transform blocks and quantiser states",
 NODEC+"checkasm runs inverse transforms with its own coefficients; coefficient parsing, dequantisation, scan order, transform selection and contexts are never executed.",
 ["src/recon_tmpl.c","src/itx_1d.c","src/itx_tmpl.c","src/dequant_tables.c","src/qm.c","src/scan.c","src/decode.c"],
 [("coefficient parsing","src/recon_tmpl.c:decode_coefs"),("inverse transforms","src/itx_tmpl.c"),("tables","src/scan.c, src/dequant_tables.c, src/qm.c, src/tables.c")],
 observe=["Dav1dPicture.data from dav1d_get_picture"])
p("C05","Entropy and reference state carry over as specified",
 "For every conforming multi-frame stream, the probability tables, segmentation maps, loop filter deltas, global motion, film grain parameters and motion fields that each frame starts from are exactly those saved by the frames it names, whatever the tiling, context refresh mode, refresh masks, error resilience, frame size changes and shown-existing frames in between; the following frames therefore decode to the specified samples.",
 ["histories","inputs"],"every conforming sequence of frame headers and refresh decisions",
 NODEC+"The property is about histories of frames and no test decodes even one.",
 ["src/cdf.c","src/decode.c","src/obu.c","src/refmvs.c"],
 [("CDF averaging/copy","src/cdf.c"),("reference update","src/decode.c:dav1d_submit_frame"),("header inheritance","src/obu.c:parse_frame_hdr")],
 observe=["Dav1dPicture.data from dav1d_get_picture"])
p("C06","Frames come out in the right order, once each, with the right shape",
 "For every conforming stream the sequence of output pictures is exactly the sequence of shown frames (including shown-existing ones) in decoding order, each with the coded size, bit depth, layout and frame number; with invisible frame output enabled it is that sequence plus every hidden coded frame at its place in coding order.",
 ["histories","configurations"],"every conforming stream, output_invisible_frames on/off, any thread count",
 NODEC+"Output scheduling depends on the sequence of shown, hidden and re-shown frames and on frame threading.",
 ["src/lib.c","src/obu.c","src/decode.c","src/picture.c"],
 [("output queue","src/lib.c:output_picture_ready/drain_picture"),("show_existing_frame","src/obu.c:dav1d_parse_obus")],
 observe=["dav1d_get_picture"])
p("C07","Parsed headers and metadata are reported as coded",
 "Every output picture carries sequence and frame header structures whose fields equal the values coded in the stream (with specified defaults and inheritance for fields not coded), plus exactly the content light, mastering display and ITU-T T.35 metadata that apply to that picture.",
 ["inputs","histories"],"every conforming stream; every header field and metadata unit",
 NODEC+"The header parser is compiled but never run by a test.",
 ["src/obu.c","src/getbits.c","include/dav1d/headers.h","src/picture.c"],
 [("OBU parsing","src/obu.c"),("metadata attachment","src/picture.c:dav1d_picture_copy_props")],
 observe=["Dav1dPicture.seq_hdr/frame_hdr/content_light/mastering_display/itut_t35"])
p("C08","Film grain is synthesised as specified",
 "For every conforming stream with film grain, the output with grain application enabled equals sample for sample the specified grain synthesis on the specified decoded picture, for every parameter set (scaling points, autoregression, chroma-from-luma scaling, overlap, clipping, seeds, inherited parameters), layout, bit depth and picture size.",
 ["inputs"],"every film grain parameter set and picture",
 "checkasm compares grain kernels in assembly and C; parameter parsing and inheritance, row/block iteration, edges and padding in the apply loop are never executed.",
 ["src/filmgrain_tmpl.c","src/fg_apply_tmpl.c","src/obu.c","src/lib.c"],
 [("grain generation and blending","src/filmgrain_tmpl.c"),("apply loop","src/fg_apply_tmpl.c")],
 observe=["Dav1dPicture.data from dav1d_get_picture with apply_grain=1","dav1d_apply_grain"])
p("C09","Output does not depend on threads, frame delay or machine timing",
 "Decoding the same stream with any number of threads and any maximum frame delay gives the same pictures (samples, headers, metadata, timestamps, order) as decoding it single-threaded, under every interleaving of the worker threads. (Streams with spatial layers decoded with all_layers off are fed in whole temporal units, since what is output then depends on when the caller asks.)",
 ["schedules","configurations","inputs"],"every n_threads/max_frame_delay, every interleaving, every stream",
 NODEC+"Interleavings of frame, tile and filter tasks are not sampled at all.",
 ["src/thread_task.c","src/decode.c","src/lib.c","src/obu.c","src/cdf.c","src/refmvs.c"],
 [("task scheduler","src/thread_task.c"),("progress counters","src/thread_task.c, src/recon_tmpl.c"),("frame thread hand-over","src/decode.c:dav1d_submit_frame")],
 observe=["dav1d_get_picture"])
p("C10","Multi-threaded decoding never deadlocks or loses a wake-up",
 "Whatever the interleaving of worker and caller threads, each call of the decoding API returns: with any stream (valid or corrupt), any thread and delay setting, and flush or close at any point, no reachable state leaves a caller waiting for work that no thread will do.",
 ["schedules","histories"],"every interleaving at every synchronisation and atomic operation; every API history incl. flush/close mid-stream",
 NODEC+"Deadlocks need one particular interleaving; no test runs more than zero decoder threads.",
 ["src/thread_task.c","src/lib.c","src/decode.c","src/cdf.c"],
 [("condition signalling","src/thread_task.c"),("flush/close handshake","src/lib.c:dav1d_flush")],
 observe=["return of every API call under a controlled scheduler"])
p("C11","Output does not depend on the CPU instruction sets used",
 "For every conforming stream, decoding with any mask of CPU features (from portable C to the widest vector extension the host offers) gives identical pictures, film grain included.",
 ["inputs","configurations"],"every conforming stream; every CPU feature mask",
 "checkasm feeds each kernel random buffers of fixed shapes; the arguments real decoding produces (edges, offsets, partial blocks, picture padding) are not covered.",
 ["src/x86","src/cpu.c","src/recon_tmpl.c","src/lr_apply_tmpl.c","src/fg_apply_tmpl.c"],
 [("feature masks","src/cpu.c"),("kernel dispatch","src/*/*.h init functions")],
 observe=["dav1d_get_picture with dav1d_set_cpu_flags_mask"])
p("C12","No input can corrupt memory or trigger undefined behaviour",
 "For every byte sequence sent to the decoder, in any packetisation, with any settings, decoding performs no out-of-bounds or use-after-free access, no undefined operation and no abort: it returns success or a negative error code, and the decoder can be flushed, reused and closed afterwards.",
 ["inputs","histories","configurations"],"all byte sequences, settings and API histories",
 NODEC+"The fuzz targets have no input in the repository and are not run.",
 ["src/obu.c","src/decode.c","src/recon_tmpl.c","src/refmvs.c","src/lib.c","src/getbits.c","src/msac.c","tests/libfuzzer/dav1d_fuzzer.c"],
 [("bounds and range checks","src/obu.c, src/decode.c, src/recon_tmpl.c")],
 observe=["AddressSanitizer/UBSan-instrumented build","return codes"])
p("C13","Every buffer is released exactly once",
 "Over any history of API calls on any stream, every picture obtained from the picture allocator is handed back exactly once and only after its last user, every input buffer's and user-data's free callback runs exactly once, and after closing the decoder and dropping the caller's references nothing remains allocated.",
 ["histories","inputs","schedules"],"all API histories, streams valid or corrupt, thread settings",
 NODEC+"Reference counting is only exercised by decoding.",
 ["src/ref.c","src/picture.c","src/data.c","src/mem.c","src/lib.c","src/decode.c","src/obu.c"],
 [("reference counts","src/ref.c"),("buffer pools","src/mem.c")],
 observe=["Dav1dPicAllocator callbacks","dav1d_data_wrap free callbacks","heap accounting"])
p("C14","Running out of memory or threads is an error, not a crash",
 "If any single or repeated memory allocation, picture allocation, thread or synchronisation object creation fails at any point, the call reports a negative error code (or the frame is lost), nothing is leaked or corrupted, no picture returned before the first reported error differs from what it would have been, and the decoder can still be flushed and closed; once the failures stop, a sequence starting with a new key frame decodes correctly.",
 ["fault_sequences","inputs","configurations"],"every position of allocation failure(s) in every decode history",
 NODEC+"The memory-failure fuzzer is not built, and no test injects a failure.",
 ["src/mem.c","src/lib.c","src/obu.c","src/decode.c","src/picture.c","src/data.c","src/ref.c","src/cdf.c","src/refmvs.c"],
 [("error unwinding","src/lib.c:dav1d_open, src/decode.c:dav1d_submit_frame, src/obu.c")],
 observe=["return codes, heap accounting, sanitizer"])
p("C15","Packetisation and call interleaving do not change the result",
 "The pictures produced depend only on the concatenated OBUs: splitting the stream into data packets at any OBU boundary, sending one OBU or many per call, asking for pictures before, between or after sends, and retrying after 'try again' all give the same picture sequence, with every packet consumed exactly once. (With spatial layers and all_layers off, the best layer is chosen among what has arrived when a picture is asked for, so packets then hold whole temporal units.)",
 ["histories","inputs"],"all packetisations and send/get interleavings",
 NODEC+"The send/get state machine is only reachable by decoding.",
 ["src/lib.c","src/obu.c","src/data.c","include/dav1d/dav1d.h"],
 [("send/get state machine","src/lib.c:gen_picture")],
 observe=["dav1d_send_data, dav1d_get_picture"])
p("C16","Flush makes the decoder as good as new",
 "After a flush at any point of any stream, no picture of the earlier input is output, and feeding a stream that starts with a sequence header and key frame gives exactly the pictures, headers, metadata and events a newly opened decoder gives.",
 ["histories","schedules"],"flush at every point of every history",
 NODEC+"seek_stress has no input and never runs.",
 ["src/lib.c","src/decode.c","src/thread_task.c","src/obu.c"],
 [("state reset","src/lib.c:dav1d_flush")],
 observe=["dav1d_flush, dav1d_get_picture"])
p("C17","Returned pictures are immutable and outlive the decoder",
 "A picture returned to the caller keeps its samples, parameters, headers and metadata unchanged until the caller releases it, whatever else is decoded, flushed or closed meanwhile.",
 ["histories","schedules"],"all histories between return and release",
 NODEC+"Needs decoding with held pictures.",
 ["src/picture.c","src/ref.c","src/lib.c","src/mem.c"],
 [("picture references","src/picture.c:dav1d_picture_ref")],
 observe=["Dav1dPicture contents over time"])
p("C18","Input packet properties travel with their picture",
 "The timestamp, duration, offset, size and user data of each output picture are those of the data packet that carried the frame (or, for a shown-existing frame, the packet carrying that instruction), for any packetisation, threading and reordering; after a decoding error the properties of the packet at fault can be retrieved.",
 ["histories","inputs","schedules"],"all packetisations and settings",
 NODEC+"Property propagation is only visible when decoding.",
 ["src/data.c","src/picture.c","src/lib.c","src/obu.c","src/decode.c"],
 [("props copy","src/data.c:dav1d_data_props_copy, src/picture.c")],
 observe=["Dav1dPicture.m","dav1d_get_decode_error_data_props"])
p("C19","Damaged data is contained",
 "When part of a stream is corrupt, missing or out of order, the decoder reports errors with a negative code other than 'try again', never outputs more pictures than were coded or a frame that failed, still decodes whatever does not depend on the damaged data unchanged, and from the next sequence header plus key frame on its output is exactly that of a decoder that never saw the damage.",
 ["inputs","histories","fault_sequences"],"all corruptions of all streams",
 NODEC+"No corrupted input is decoded by a test.",
 ["src/obu.c","src/decode.c","src/lib.c","src/thread_task.c"],
 [("error paths","src/obu.c error/skip labels, src/decode.c:dav1d_submit_frame"),("frame error propagation","src/thread_task.c")],
 observe=["return codes and pictures"])
p("C20","Decoding settings select exactly what they document",
 "Frame size limit, decode frame type, in-loop filter selection and strict compliance each have exactly their documented effect on every stream: frames over the limit are refused and all others decoded, only the requested frame classes are decoded and output, disabled filters are skipped as if their strengths were zero while everything else is unchanged, and streams without violations decode identically in strict mode.",
 ["configurations","inputs"],"all values of the settings on all conforming streams",
 NODEC+"Settings have no test.",
 ["src/lib.c","src/obu.c","src/decode.c","src/recon_tmpl.c","include/dav1d/dav1d.h"],
 [("frame skipping","src/obu.c:dav1d_parse_obus skip"),("size limit","src/obu.c"),("filter switches","src/recon_tmpl.c, src/thread_task.c")],
 observe=["dav1d_get_picture under Dav1dSettings"])
p("C21","Scalable streams: the chosen operating point decides what is output",
 "For streams with temporal and spatial layers, only layers belonging to the selected operating point are decoded; with all-layers output every shown frame of those layers is output, and without it exactly the highest spatial layer available in each temporal unit is output, when temporal units are sent whole.",
 ["inputs","configurations","histories"],"all layer structures, operating points and all_layers values",
 NODEC+"No scalable stream exists in the repository.",
 ["src/obu.c","src/lib.c","src/picture.c"],
 [("OBU dropping","src/obu.c"),("layer selection","src/lib.c:output_picture_ready/output_image")],
 observe=["dav1d_get_picture"])
p("C22","Sequence header parsing agrees with the decoder and the data",
 "Stand-alone sequence header parsing returns the fields of the last sequence header in any buffer of OBUs exactly as coded, reports 'no entry' exactly when there is none, rejects malformed data, and never reads outside the buffer.",
 ["inputs"],"all byte buffers",
 "No test calls it.",
 ["src/obu.c","src/getbits.c"],
 [("parser","src/obu.c:dav1d_parse_sequence_header")],
 observe=["dav1d_parse_sequence_header"])
p("C23","Argument and settings validation",
 "Opening a decoder succeeds exactly for settings in the documented ranges and otherwise returns a negative code without leaking; the reported frame delay is at least 1, at most the requested maximum and thread count, and is the delay the opened decoder shows (with a reported delay of 1 each shown frame is available as soon as its packet was sent, with a delay of d>1 the first one comes after d further packets of one frame each, or when draining); invalid arguments to any call are refused with a negative code and no side effect.",
 ["configurations","histories"],"all settings and argument values",
 "No test opens a decoder.",
 ["src/lib.c","src/data.c","include/dav1d/dav1d.h"],
 [("validation","src/lib.c:dav1d_open/get_num_threads")],
 observe=["dav1d_open, dav1d_get_frame_delay, dav1d_data_*"])
p("C24","Event flags mark every new sequence and operating parameter change",
 "A new-sequence event is raised exactly when an output picture is the first of a new coded sequence or the first after opening or flushing, and a new operating parameters event exactly when only those parameters changed; reading the flags clears them. (The flags describe the last returned picture; a shown-existing frame repeats the flags of its frame.)",
 ["histories"],"all sequences of sequence headers, frames and flushes",
 NODEC+"Events are only raised while decoding.",
 ["src/obu.c","src/picture.c","src/lib.c"],
 [("flags","src/obu.c, src/picture.c:dav1d_thread_picture_alloc")],
 observe=["dav1d_get_event_flags"])
p("C25","The picture allocator contract is honoured",
 "With a user supplied allocator, every picture request carries the correct size, layout and bit depth, the decoder works with any permitted placement (aligned planes, padded or negative strides), writes only inside the area the contract requires, never returns or reuses a picture in any other way than by the release callback, and produces the same samples as with the built-in allocator.",
 ["configurations","inputs"],"all permitted plane placements and streams",
 NODEC+"No test supplies an allocator.",
 ["include/dav1d/picture.h","src/picture.c","src/recon_tmpl.c","src/fg_apply_tmpl.c"],
 [("allocation","src/picture.c:picture_alloc")],
 observe=["Dav1dPicAllocator callbacks with guarded memory"])
p("C26","Every container gives the same video",
 "The command line decoder produces the same frames for the same OBUs whether stored as IVF, Section 5 or Annex B, chosen explicitly or detected from the content, and passes IVF timestamps and positions on (evenly spaced timestamps when the file's do not increase); malformed or truncated files end with an error or the frames before the damage, never a crash or hang.",
 ["inputs"],"all streams, container encodings and malformed files",
 "The tools are compiled but never run by a test.",
 ["tools/input/ivf.c","tools/input/annexb.c","tools/input/section5.c","tools/input/input.c","tools/input/parse.h"],
 [("demuxers","tools/input/*.c")],
 observe=["dav1d command line exit status and output file"])
p("C27","Written output is the decoded video",
 "The files the command line decoder writes (raw YUV, YUV4MPEG2, MD5, XXH3, per-frame files with patterns) contain exactly the decoded pictures in order with a correct header or checksum, and verification succeeds exactly when the given (32 digit) checksum is the right one.",
 ["inputs","configurations"],"all streams, layouts, depths, sizes, output formats",
 "The tools are never run by a test.",
 ["tools/output/yuv.c","tools/output/y4m2.c","tools/output/md5.c","tools/output/xxhash.c","tools/output/output.c"],
 [("muxers","tools/output/*.c")],
 observe=["dav1d command line output files"])
p("C28","Command line options do what they say",
 "Frame limit, packet skip, thread and delay counts, film grain, layer and operating point selection, CPU mask, invisible frames, frame type, in-loop filter, size limit and negative stride options of the command line decoder give exactly the frames the corresponding library setting defines, invalid values are refused with a failure status, and the exit status is failure exactly when the options are invalid, the input or output cannot be opened, nothing was decoded, or decoding stopped early at an error other than a damaged frame.",
 ["configurations","inputs"],"all option combinations and streams",
 "The tools are never run by a test.",
 ["tools/dav1d.c","tools/dav1d_cli_parse.c"],
 [("option parsing","tools/dav1d_cli_parse.c"),("decode loop","tools/dav1d.c")],
 observe=["dav1d command line"])
p("C29","Concurrent decoder instances do not affect each other",
 "Any number of decoders opened, used and closed concurrently from different threads, on different streams and settings, each give exactly the output they give alone, free of data races on shared state.",
 ["schedules","histories"],"all interleavings of independent instances, including first-use initialisation",
 NODEC+"Global tables and CPU dispatch are initialised lazily and shared.",
 ["src/lib.c","src/wedge.c","src/intra_edge.c","src/qm.c","src/cpu.c","src/mem.c"],
 [("one-time initialisation","src/lib.c:init_internal")],
 observe=["dav1d_open..dav1d_close on several threads"])
p("C30","Decoding is free of data races",
 "With any thread and frame delay settings, decoding any stream performs no unsynchronised conflicting accesses to shared memory, between worker threads or between workers and the caller reading returned pictures.",
 ["schedules","inputs"],"all interleavings, streams and settings",
 NODEC+"No threaded decode is ever run.",
 ["src/thread_task.c","src/decode.c","src/recon_tmpl.c","src/lib.c","src/picture.c","src/cdf.c"],
 [("progress publication","src/thread_task.c, src/decode.c")],
 observe=["ThreadSanitizer build under generated streams and perturbed schedules"])
p("C31","A decoder holds a bounded amount of memory, buffers and pictures",
 "However long a decoder runs, what it holds does not grow with what it has decoded: decoding the same pictures again and again, with or without errors, flushes and drains, leaves the same memory allocated; it never keeps more pictures than the eight references plus those of the frames in flight; after draining a conforming stream it holds none of the caller's input buffers, and after a flush none of the caller's buffers, user data or pictures except those the caller still holds.",
 ["histories","inputs"],"all histories of one decoder, however long",
 NODEC+"A buffer that is freed only when the decoder closes passes every leak check.",
 ["src/lib.c","src/ref.c","src/mem.c","src/picture.c","src/obu.c","src/decode.c","src/data.c"],
 [("reference counting","src/ref.c, src/mem.c (pools)"),("flush","src/lib.c:dav1d_flush"),("frame exit","src/decode.c:dav1d_decode_frame_exit")],
 observe=["allocation functions","Dav1dPicAllocator, dav1d_data_wrap and dav1d_data_wrap_user_data callbacks"])
p("C32","Film grain applied as a separate step is the same film grain",
 "With film grain off at decoding, applying it to any returned picture, at any later time while a decoder is open, with one or many threads, gives exactly the picture the specification defines with grain, with the same headers, metadata and packet properties; the source picture stays as it was, and a picture without grain comes back unchanged.",
 ["inputs","histories","configurations"],"all pictures, grain parameters, thread counts and times of application",
 NODEC+"dav1d_apply_grain is never called by a test.",
 ["src/lib.c","src/fg_apply_tmpl.c","src/filmgrain_tmpl.c","src/thread_task.c","src/picture.c"],
 [("separate grain","src/lib.c:dav1d_apply_grain, src/thread_task.c:dav1d_task_delayed_fg")],
 observe=["dav1d_apply_grain"])
p("C33","Extension points of the bitstream are ignored",
 "Adding to a stream what decoders are told to ignore never changes the output: OBUs of reserved types, padding, metadata of unknown, private, scalability or timecode type, with or without extension and of any content, reserved header bits, longer encodings of size and metadata type fields, and zero bytes after the trailing bits of header and metadata OBUs.",
 ["inputs"],"all such additions at all places of all streams",
 NODEC+"No test decodes a stream, let alone one with reserved syntax.",
 ["src/obu.c","src/getbits.c"],
 [("OBU dispatch","src/obu.c:dav1d_parse_obus"),("metadata","src/obu.c:dav1d_parse_obus"),("trailing bits","src/obu.c:check_trailing_bits")],
 observe=["dav1d_get_picture"])
p("C34","Messages go to the configured logger only",
 "Every message is delivered complete, with its cookie, to the logger set at open; without a logger nothing is written anywhere and with the default logger the same text goes to standard error only; the choice never changes what is decoded.",
 ["configurations","inputs"],"all inputs that cause messages and all logger settings",
 NODEC+"Messages only occur on unusual or damaged input.",
 ["src/log.c","src/lib.c","src/obu.c"],
 [("logging","src/log.c:dav1d_log")],
 observe=["Dav1dLogger callback, standard output and error"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
