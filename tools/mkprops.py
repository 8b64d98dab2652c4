#!/usr/bin/env python3
"""Writes properties.jsonl (one property per line) from the table below."""
import json, os
P = []
def prop(id, title, statement, over, q, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over.split(), text=q), why_tests_cant=why,
        anchors=dict(files=["src/"+f for f in files],
            state=[dict(name=a, meaning=b, where="src/"+c) for a,b,c in state],
            mechanism=[dict(name=a, where="src/"+b) for a,b in mech],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "Delta transform is exactly reversible and stays inside its buffer",
 "For every integer array, including the empty one and arrays whose differences wrap around the 32-bit range, transforming replaces each element except the first by its (wrapping) difference from its predecessor, and inverting then restores the original array bit for bit. Neither operation reads or writes outside the array it was given, and both terminate.",
 "inputs", "all arrays of all lengths and all 32-bit contents", "No test touches the delta transform; reversibility and memory safety quantify over every array content and length, incl. 0 and 1.",
 ["hzip_core/preprocessor/delta.cpp","hzip_core/preprocessor/delta.h"], [("DeltaTransformer::transform / invert","hzip_core/preprocessor/delta.cpp")], observe=["contents of the caller's array after each call"])
prop("C02", "Zig-zag traversal visits every cell of the grid exactly once, in order",
 "Iterating the zig-zag transformer of a W x H grid yields every coordinate (x<W, y<H) exactly once and nothing else, starting at (0,0), moving along anti-diagonals of alternating direction so that the diagonal index x+y never decreases, and then reaches the end position. This holds for every width and height up to the 32-bit limits, and an empty grid (W or H zero) yields no cell.",
 "inputs", "all widths, heights and positions of 32-bit range", "The four tests run one square, one wide, one tall and one square grid; the step function has corner cases at every border, for every pair of dimensions.",
 ["hzip_core/preprocessor/zigzag.h"], [("zigzag_pair::next","hzip_core/preprocessor/zigzag.h"),("const_iterator, begin, end","hzip_core/preprocessor/zigzag.h")], state=[("zigzag_pair{x,y}","current cell","hzip_core/preprocessor/zigzag.h")], observe=["sequence of coordinates produced by a range-for over the transformer"])
prop("C03", "Burrows-Wheeler transform is exactly reversible for any symbol sequence",
 "For every sequence of symbols below the declared alphabet size, including empty, one-symbol and highly repetitive sequences, the forward transform leaves a permutation of the input that equals the classical (sentinel-terminated, sorted rotations) Burrows-Wheeler transform and returns the index of the sentinel row; the inverse transform with that index restores the original. Neither direction touches memory outside the buffers it owns.",
 "inputs", "all symbol sequences and alphabet sizes for the supported symbol and index types", "Existing tests for it (not built here) use random samples; the suffix-array recursion has data-dependent merge and rename cases that random data rarely reaches.",
 ["hzip_core/preprocessor/burrows_wheeler.h"], [("BurrowsWheelerTransformer::suffix_array, radix_pass","hzip_core/preprocessor/burrows_wheeler.h"),("transform / invert","hzip_core/preprocessor/burrows_wheeler.h")], observe=["buffer contents and returned index"])
prop("C04", "Move-to-front coding is exactly reversible and follows the MTF definition",
 "For every sequence of symbols below the alphabet size, the transform replaces each symbol by its current position in the recency list (initially 0,1,2,...) and moves it to the front, and the inverse transform restores the sequence exactly. Every produced rank is below the alphabet size.",
 "inputs", "all sequences over every alphabet size", "Tests sample random data for one alphabet size; the property is for all sequences.",
 ["hzip_core/preprocessor/move_to_front.h"], [("MoveToFrontTransformer::transform / invert","hzip_core/preprocessor/move_to_front.h")], state=[("lru_cache","recency list","hzip_core/preprocessor/move_to_front.h")], observe=["buffer contents"])
prop("C05", "Planar YCoCg colour transform is lossless for every bit depth",
 "For every planar three-channel image of 16-bit samples below 2^depth and every bit depth from 1 to 16, converting RGB to YCoCg and back gives exactly the original image, each converted sample again fits the bit depth, and every pixel is converted independently of all others. The result is the same whether the conversion runs in place or into a new buffer, and an out-of-place conversion leaves its input unchanged.",
 "inputs configurations", "all pixels, image sizes, bit depths and both buffer modes", "The tests (not built here) use random pixels at a few depths.",
 ["hzip_core/preprocessor/color.cpp","hzip_core/preprocessor/color.h"], [("forward_lift / reverse_lift","hzip_core/preprocessor/color.cpp"),("cpu_rgb_to_ycocg / cpu_ycocg_to_rgb","hzip_core/preprocessor/color.cpp")], observe=["returned buffers"])
prop("C06", "Pixel colour transformer round-trips every pixel value",
 "For every pixel of the supported sample types, transforming RGB to YCoCg and then YCoCg to RGB returns the same pixel, for both 8-bit and wider sample types. Requesting a conversion kind that is not implemented is reported as an error instead of returning an arbitrary pixel.",
 "inputs", "all pixel values of the sample type and all transform kinds", "Random sampling cannot cover 2^24..2^48 pixel values.",
 ["hzip_core/preprocessor/color.h"], [("RGBColorTransformer::get","hzip_core/preprocessor/color.h")], observe=["returned pixel"])
prop("C07", "Paeth differential filter is reversible and independent of buffer mode",
 "For every planar image of samples below 2^depth, any number of channels, any width and height and any depth from 1 to 16, the Paeth differential output has every sample below 2^depth and determines the input: reconstructing in raster order recovers it exactly, predicting the left neighbour in the first row, the upper one in the first column, and elsewhere whichever of left a, upper b and upper-left c is nearest to |a+b-c| (ties in that order). Filtering in place gives the same result as filtering into a new buffer, and the latter leaves the input unchanged.",
 "inputs configurations", "all images, dimensions, channel counts, depths and both buffer modes", "Tests compare a few random images.",
 ["hzip_core/models/paeth.cpp","hzip_core/models/paeth.h"], [("LinearU16PaethDifferential::cpu_filter","hzip_core/models/paeth.cpp")], observe=["returned buffer"])
prop("C08", "GPU kernels compute the same function as the CPU code",
 "For every non-empty image, every dimension, every bit depth and every split of the work over kernel instances, the OpenCL kernels for colour conversion and Paeth filtering produce the same samples as the CPU implementations, writing each output sample and nothing outside the image. Work items beyond the image do nothing.",
 "inputs configurations", "all images, sizes, strides and work-item counts", "No OpenCL device exists in the test environment, so no test reaches the kernels at all.",
 ["hzip_core/preprocessor/rgb_ycocg.cl","hzip_core/models/paeth.cl","hzip_core/preprocessor/color.cpp","hzip_core/models/paeth.cpp"], [("u16x_rgb_to_ycocg, u16x_ycocg_to_rgb","hzip_core/preprocessor/rgb_ycocg.cl"),("paeth_differential16","hzip_core/models/paeth.cl")], observe=["output buffers"])
prop("C09", "Integer codes decode to what was encoded and consume exactly their bits",
 "For every value in the code's domain (Elias-gamma: 0 to 2^31-1; unary: 1 and up), the code word written decodes back to the value, the reported bit length equals the bits the decoder consumes, and no code word is a prefix of another. Encoding and decoding terminate for every value.",
 "inputs", "all values of the domains", "Not tested; boundaries lie at each power of two.",
 ["hzip_core/utils/utils.h"], [("hz_elias_gamma, hz_elias_gamma_inv, hz_unary_write, hz_unary_read, hz_u64log2","hzip_core/utils/utils.h")], observe=["bits passed to the write callback / requested from the read callback"])
prop("C10", "Byte, word and bit packing conversions are exact inverses",
 "Converting a 64-bit value to its 8-byte buffer and back, or 32-bit words to bytes and back, returns the original for every value and length; words are stored big-endian and 64-bit values little-endian. Packing a list of (value, bit count) items yields exactly the concatenation of their low bits, most significant first, padded with zero bits to a whole byte.",
 "inputs", "all values, lengths and bit counts", "Not tested directly.",
 ["hzip_core/utils/utils.h"], [("hz_u64_to_u8buf, hz_u8buf_to_u64, hz_u8_to_u32ptr, hz_u32_to_u8ptr, hz_vecbin_to_raw","hzip_core/utils/utils.h")], observe=["returned buffers"])
prop("C11", "The buffered stack is a LIFO stack for every operation history",
 "After any sequence of pushes and pops, the stack's size, emptiness and top are those of an ideal last-in first-out stack, including when it grows across internal buffer boundaries, shrinks back, becomes empty and is used again. Popping an empty stack has no effect, and all memory is released exactly once.",
 "histories", "all push/pop histories", "Not tested; boundary effects need tens of thousands of operations or an exact empty-and-reuse history.",
 ["hzip_core/utils/stack.h"], [("HZ_Stack::push, pop, top, size, empty","hzip_core/utils/stack.h")], state=[("buffer, index","current buffer and fill level","hzip_core/utils/stack.h")], observe=["top(), size(), empty()"])
prop("C12", "Entropy coder decodes exactly the symbols it encoded",
 "For every symbol sequence and every valid frequency table whose entries are positive and sum to the coder's scale, decoding the words the range coder produced returns the same symbols in the same order, and the decoder reads exactly the words that were written. Each single coding step is undone by the corresponding decoding step for every reachable coder state.",
 "inputs histories", "all coder states, tables, scales and symbol sequences", "Codec tests (not built here) exercise a few files; carry and renormalisation boundaries are hit with probability about 2^-31.",
 ["hzip_core/kernel/hzrans/hzrans64.cpp","hzip_core/kernel/hzrans/hzrans64_codec.cpp"], [("hzrans64_encode_s / decode_s / enc_flush / dec_load_state / inv_bs / add_to_seq","hzip_core/kernel/hzrans/hzrans64.cpp"),("hzrans64_encoder::encode, hzrans64_decoder::decode","hzip_core/kernel/hzrans/hzrans64_codec.cpp")], state=[("hzrans64_t.x","coder state","hzip_core/kernel/hzrans/hzrans64.h")], observe=["emitted words and decoded symbols"])
prop("C13", "Frequency normalisation always yields a usable coding table",
 "For every vector of symbol counts, normalising it to a power-of-two total gives every symbol a frequency of at least one and makes the frequencies sum to exactly that total, so that every symbol stays encodable. Normalisation always terminates and is deterministic, so encoder and decoder derive the same table.",
 "inputs", "all count vectors, alphabet sizes and scales in the supported range", "A bad table appears only for unusual count vectors (rounding residues).",
 ["hzip_core/kernel/hzrans/hzrans64.cpp","hzip_codec/victini/victini.cpp"], [("hzrans64_create_ftable_nf","hzip_core/kernel/hzrans/hzrans64.cpp"),("Victini frequency normalisation","hzip_codec/victini/victini.cpp")], observe=["the frequency table"])
prop("C14", "First-order context model tracks exactly the observed symbol pairs",
 "After any sequence of updates, the model's distribution for a context is its initial distribution plus the number of times each symbol followed that context; other contexts are unaffected. Encoder and decoder models fed the same symbols are always in the same state.",
 "inputs histories", "all update sequences", "Not tested.",
 ["hzip_core/models/first_order_context.cpp","hzip_core/models/first_order_context.h"], [("FirstOrderContextModel","hzip_core/models/first_order_context.cpp")], observe=["distribution returned by the model"])
prop("C15", "Codec parameters survive serialisation and typed lookup",
 "For every set of parameters with arbitrary byte-string keys and values, serialising to bytes and parsing back yields the same set. A lookup returns the stored value, or the caller's default exactly when the key is absent, converted to the requested type.",
 "inputs", "all parameter maps, incl. empty strings and bytes above 127", "Not tested.",
 ["hzip_core/blob/blob.cpp","hzip_core/blob/blob.h"], [("HZ_Params::to_byte_array, from_byte_array, get","hzip_core/blob/blob.cpp")], observe=["params map"])
prop("C16", "A blob never grows: incompressible data is kept verbatim",
 "After a blob is evaluated against the original data, either its encoded size is smaller than the original and it is marked compressed with its encoded data untouched, or it is marked uncompressed, holds exactly the original data and size, and carries no model state.",
 "inputs", "all sizes and contents", "Not tested.",
 ["hzip_core/blob/blob.cpp"], [("HZ_Blob::evaluate","hzip_core/blob/blob.cpp")], observe=["blob fields"])
prop("C17", "The uncompressed codec is the identity",
 "For every blob, encoding and decoding with the uncompressed codec return a new blob with the same bytes, sizes and model state, never marked compressed, without modifying the input blob; decoding a blob that announces an original size other than its size may be refused with an error. Training with it is rejected with an error.",
 "inputs", "all blobs", "Not tested.",
 ["hzip_codec/uncompressed/uncompressed.cpp"], [("Uncompressed::compress / decompress / train","hzip_codec/uncompressed/uncompressed.cpp")], observe=["returned blob"])
prop("C18", "Default codec reproduces every input exactly",
 "For every byte sequence, including empty and one-byte inputs, compressing with the default codec (Victini) and decompressing the resulting blob returns exactly the original bytes and original size, whatever the data. If compression does not pay off, the blob falls back to the raw data and still decodes to the original.",
 "inputs", "all byte sequences", "Tests (not built here) use one random distribution.",
 ["hzip_codec/victini/victini.cpp","hzip_core/kernel/hzrans/hzrans64_codec.cpp","hzip_core/kernel/hzrans/hzrans64.cpp","hzip_core/models/first_order_context.cpp"], [("Victini::compress / decompress","hzip_codec/victini/victini.cpp")], observe=["decompressed blob"])
prop("C19", "Codec with a trained model reproduces every input exactly",
 "A model state trained on any data serialises and restores to the same model, and any input compressed with that model state decompresses with it to exactly the original, even when the input contains symbols or transitions never seen in training. Training on top of an existing model accumulates its statistics.",
 "inputs histories", "all training data and all inputs", "Tests (not built here) use one training file.",
 ["hzip_codec/victini/victini.cpp"], [("Victini::train, model-state (de)serialisation, compress/decompress with a model state","hzip_codec/victini/victini.cpp")], observe=["decompressed blob, model state bytes"])
prop("C20", "Image codec pre-coding gives every sample a decodable coder interval",
 "For every image, bit depth, number of channels, chunk size, context order and learning rate, and for every model that is injected, the image codec's pre-coding (CPU, OpenCL kernel or static model) produces exactly one interval per sample, and for samples of more than 8 bits a second one for the low byte, in the documented place. Every interval is non-empty and lies inside the coder's range of 2^24, intervals of different symbols at the same place are disjoint, and an interval depends only on symbols that come earlier in the documented order, so that a decoder can follow. Nothing outside the image is read, the image is not changed, small images give the CPU's result whether OpenCL is enabled or not, and the kernel does not depend on the work group size or the order of its work items.",
 "inputs configurations", "all images, chunk sizes and contexts", "No test covers it; the decoder side does not exist, so no round trip can show a mistake.",
 ["hzip_codec/sharingan/state_transition.cpp","hzip_codec/sharingan/state_transition.h","hzip_codec/sharingan/sharingan_dynamic.cl"], [("SharinganStateTransition pre-coding","hzip_codec/sharingan/state_transition.cpp"),("sharingan_dynamic kernel","hzip_codec/sharingan/sharingan_dynamic.cl")], observe=["array of (ls, bs) pairs"])
prop("C21", "PNG import delivers every sample of every supported image",
 "For every PNG the decoder library accepts - any dimensions, 1 to 4 channels, any bit depth, interlaced or not - the imported bundle holds exactly the decoded samples in planar order together with the header fields and palette. An image with an unsupported layout is rejected rather than read or written out of bounds, and data without a PNG signature is rejected.",
 "inputs", "all headers and pixel values libpng can deliver", "No test imports PNG files other than via the image codec.",
 ["hzip_core/preprocessor/png_bundle.cpp","hzip_core/preprocessor/png_bundle.h"], [("PNGBundleBuilder::read_bundle","hzip_core/preprocessor/png_bundle.cpp")], observe=["PNGBundle"])
prop("C22", "Codec registry resolves every known algorithm and rejects unknown ones",
 "Every declared algorithm resolves to its own codec, name and block size; an unknown algorithm number is rejected with an error by the codec and name lookups and gets the unlimited block size. Lookups never change the registry.",
 "inputs histories", "all algorithm numbers (a byte read from the network is cast to one) and all lookup orders", "Not tested; the value comes unchecked from the network.",
 ["hzip_codec/codec_provider.cpp","hzip_codec/codec_provider.h"], [("CodecProvider lookups","hzip_codec/codec_provider.h")], observe=["lookup result or exception"])
prop("C23", "An archive returns exactly what was stored, across any history",
 "After any sequence of storing and removing files, blobs and model states, including closing and reopening the archive between operations, every file still present reads back with the same blobs - header, data, sizes, status and model state - in the same order, and everything removed is reported as absent. Storing something never changes what was stored under another name.",
 "histories inputs", "all operation histories and contents", "The archive test (not built here) runs one fixed history per feature; space reuse depends on exact lengths over a history.",
 ["hzip_storage/archive/archive.cpp","hzip_storage/archive/archive.h","hzip_storage/archive/archive_trie.h"], [("hza_write_blob / hza_read_blob / hza_rm_blob, hza_write_mstate / hza_read_mstate, hza_create_metadata_file_entry, hza_scan, hza_alloc_fragment","hzip_storage/archive/archive.cpp")], state=[("metadata.eof, fragments, blob_map, mstate_map, file_map","index of the archive file","hzip_storage/archive/archive.h")], observe=["public archive API"])
prop("C24", "Archive space stays a gap-free sequence of blocks that never overlap",
 "At all times the archive file up to its end is an exact tiling by blocks - live blobs, model states, metadata entries and free fragments - so that no two live blocks overlap, every free fragment is really free, and a rescan finds the same blocks that the open archive has in memory. Space freed by a removal is reused only when the new block fits exactly or leaves room for a free-block header.",
 "histories inputs", "all allocation/removal histories and all lengths", "Overlap needs particular length combinations after removals.",
 ["hzip_storage/archive/archive.cpp"], [("hza_alloc_fragment and the writers/removers","hzip_storage/archive/archive.cpp")], state=[("metadata.fragments","free list","hzip_storage/archive/archive.h")], observe=["the raw archive bytes after close; blocks found by walking them"])
prop("C25", "A model state is never removed while a stored blob depends on it",
 "A model state stays readable as long as any stored blob was compressed with it: uninstalling it is refused with an error while such a blob exists, also after the archive has been closed and reopened. When the last dependent blob is removed, an anonymous model state is removed with it, and a named (installed) one is kept.",
 "histories", "all histories of install, inject, write, remove, uninstall and reopen", "Tests cover one history without reopening.",
 ["hzip_storage/archive/archive.cpp"], [("dep_counter, mstate_inv_aux_map, hza_increment_dep / hza_decrement_dep / hza_rm_mstate","hzip_storage/archive/archive.cpp")], state=[("dep_counter","blobs depending on a model state","hzip_storage/archive/archive.h")], observe=["uninstall_mstate, read_mstate, read_file results"])
prop("C26", "A failed archive operation changes nothing and leaves the archive usable",
 "When an archive operation is rejected - unknown name, name already in use, invalid path, path that names a directory or lies below an existing file, dependency still present - it reports an error, the stored contents stay exactly as before, and later operations from any thread proceed normally. No operation leaves the archive locked.",
 "inputs histories", "all rejected operations in all archive states", "Tests check that some exceptions are thrown, not what happens afterwards.",
 ["hzip_storage/archive/archive.cpp","hzip_storage/archive/archive_trie.h"], [("mutex handling on error paths","hzip_storage/archive/archive.cpp")], observe=["next operation's completion and results"])
prop("C27", "The path index behaves as a map from paths to entries",
 "After any sequence of successful insertions and erasures, looking up a path returns the last value inserted there, a path is present exactly when it or a path below it was inserted and not erased, and listing a directory yields each of its immediate children once with the right file/directory flag. An entry can neither be placed below a file nor replace a non-empty directory: such insertions are rejected and leave the index unchanged.",
 "histories inputs", "all histories over all paths", "Tests only reach it through a few archive paths.",
 ["hzip_storage/archive/archive_trie.h"], [("HZ_ArchiveTrie::set/get/contains/erase/children","hzip_storage/archive/archive_trie.h")], observe=["get, contains, children"])
prop("C28", "Path validation accepts exactly the well-formed absolute paths",
 "A path is accepted exactly when it starts with '/', contains no NUL, backslash or space, and has no two consecutive slashes; every other string, including the empty one, is rejected with an error, and validation never reads outside the string.",
 "inputs", "all byte strings", "Not tested; it guards all archive names coming from the network.",
 ["hzip_core/utils/validation.h"], [("hz_validate_path","hzip_core/utils/validation.h")], observe=["exception or return"])
prop("C29", "Semaphore admits at most its count and loses no wake-up",
 "Under every interleaving of threads, at most the configured number of holders are between acquire and release, every waiting thread is woken when a permit becomes available, and permits are neither lost nor duplicated. A thread blocks only while no permit is available.",
 "schedules", "all interleavings and initial counts", "Not tested; needs particular schedules.",
 ["hzip_core/utils/semaphore.cpp","hzip_core/utils/semaphore.h"], [("Semaphore::acquire / release","hzip_core/utils/semaphore.cpp")], state=[("_count","free permits","hzip_core/utils/semaphore.h")], observe=["number of concurrent holders; blocked threads"])
prop("C30", "Every job completes exactly once with the right callbacks",
 "For every job - encoding, decoding or training, valid or not, failing or not - the processor calls exactly one of the success and error callbacks, then the completion callback, then frees its slot; no failure escapes the worker or leaks the slot. At most the configured number of jobs run at once, under every interleaving.",
 "schedules inputs fault_sequences", "all job kinds, failures and interleavings", "Not tested.",
 ["hzip_codec/processor/processor.cpp","hzip_codec/processor/job.h"], [("HZ_Processor::run","hzip_codec/processor/processor.cpp")], observe=["callback sequence"])
prop("C31", "Encode and decode jobs deliver data that decodes to the original",
 "For every input, algorithm and combination of archive, model-state address and result callback accepted by the processor, the blob an encode job delivers or stores decodes, through a decode job, to exactly the original data - also when the data turned out to be incompressible or was encoded with an installed model state. Jobs lacking a required archive, address or consumer are rejected with an error. A training job continues from the model state installed at its address; a failing one leaves installed model states as they were.",
 "inputs configurations", "all data and option combinations", "Not tested.",
 ["hzip_codec/processor/processor.cpp","hzip_core/blob/blob.cpp","hzip_storage/archive/archive.cpp"], [("hzp_encode, hzp_decode, hzp_train","hzip_codec/processor/processor.cpp")], observe=["blobs passed to callbacks / stored in the archive"])
prop("C32", "Every transfer error on a connection surfaces as a connection error",
 "Sending or receiving a message of any length succeeds only if every byte was transferred; a short transfer, a closed peer, a timeout or any socket failure at any step raises a connection error and no further bytes of that message are sent (an error report that cannot be sent is abandoned at the first failed step). The bytes on the wire follow the documented framing: a success word before each message and each requested receive, an error word, 2-byte length and text for errors.",
 "fault_sequences inputs", "all results the socket calls may return, at every call, for all lengths", "Not tested; failures must be injected.",
 ["hzip_network/api/handlers/socket_class.cpp","hzip_network/api/handlers/socket_class.h"], [("SocketInterface::t_send, t_recv, t_recv_sync, success, error","hzip_network/api/handlers/socket_class.cpp")], observe=["send/recv calls made, exceptions raised"])
prop("C33", "API sessions admit only password holders and always end cleanly",
 "A session serves commands only after the client returned the random token correctly decrypted with the password; a wrong token ends the session. However the session ends - close command, failed handshake, connection error at any point - the socket is closed exactly once and the session slot is released exactly once, and an invalid command is answered with an error without ending the session.",
 "inputs fault_sequences", "all client byte streams, passwords, tokens and connection failures", "Not tested.",
 ["hzip_network/api/api.cpp","hzip_network/api/api.h","hzip_core/utils/utils.h"], [("ApiInstance::handshake / start / end, hz_enc_token","hzip_network/api/api.cpp")], observe=["socket calls, semaphore releases"])
prop("C34", "Query commands check their prerequisites and answer truthfully",
 "Each query command acts only when everything it needs (archive, target path, piggy-back permission) was provided earlier in the same query, otherwise it is rejected with an error; an invalid path or unknown command is rejected likewise. Answers (existence, listings, deletions) reflect the archive's contents, in the documented wire format, for every client byte stream.",
 "inputs histories", "all command sequences", "Not tested.",
 ["hzip_network/api/handlers/query.cpp"], [("Query::start","hzip_network/api/handlers/query.cpp")], observe=["bytes sent, exceptions, archive contents"])
prop("C35", "Streaming commands store and return client data unchanged",
 "For every sequence of stream-protocol messages a client may send, data encoded through the API - to an archive or back to the client - decodes through the API to the original bytes, and model states written are read back unchanged. Requests lacking a required argument, or with an invalid path or algorithm, are rejected with an error and leave archives unchanged.",
 "inputs histories", "all message sequences and data", "Not tested.",
 ["hzip_network/api/handlers/streamer.cpp"], [("Streamer::encode / decode / write_mstate / read_mstate","hzip_network/api/handlers/streamer.cpp")], observe=["bytes sent, archive contents"])
prop("C36", "Each archive is opened once and shared; open failures block nobody",
 "Requests for the same archive path get the same archive instance and different paths get different ones, under every interleaving; closing closes each opened archive once. If opening an archive fails, the error is reported and later requests from any thread still proceed.",
 "schedules histories fault_sequences", "all request sequences, interleavings and open failures", "Not tested.",
 ["hzip_network/api/providers/archive_provider.cpp"], [("ArchiveProvider::provide / close","hzip_network/api/providers/archive_provider.cpp")], observe=["returned archives; completion"])
prop("C37", "Cache pool hands out its caches in turn, each with its own lock",
 "After initialisation with N caches, requests return caches 0,1,...,N-1,0,... in turn, each always with the same own lock and backed by its own file, under every interleaving and also after re-initialisation with another count. No request ever gets a cache outside the pool.",
 "histories schedules", "all counts, request counts and re-initialisations", "Not tested.",
 ["hzip_core/runtime/cache_provider.cpp"], [("CacheProvider::init_cache / get_cache","hzip_core/runtime/cache_provider.cpp")], state=[("_rainman_cache_index","next cache","hzip_core/runtime/cache_provider.cpp")], observe=["references returned"])
prop("C38", "Configuration takes each setting from its own environment variable",
 "For every combination of set and unset environment variables, each setting takes the value of its own variable when set and keeps its documented default otherwise, and no variable influences another setting. The cache pool is created with the configured file name, count and page size.",
 "configurations", "all 2^n combinations of variables and all numeric values", "Not tested.",
 ["hzip_core/runtime/config.cpp","hzip_core/runtime/config.h"], [("Config::configure","hzip_core/runtime/config.cpp")], observe=["Config fields"])
prop("C39", "Device and program providers never hand out something that is not there",
 "After any sequence of loading, filtering, registering, clearing and requesting, the device provider returns exactly the loaded devices that were kept or reports an error if there is none; the program provider returns a program successfully built from exactly the registered source, for an existing device and with that device's own lock, taking the devices in turn, or reports an error for an unknown name. A failure to build is reported and leaves the name unregistered. Filtering keeps exactly the devices whose name matches.",
 "histories configurations", "all device sets and operation histories", "No OpenCL device in the test environment.",
 ["hzip_core/opencl/cl_helper.cpp","hzip_core/opencl/cl_helper.h"], [("DeviceProvider, ProgramProvider, KernelProvider","hzip_core/opencl/cl_helper.cpp")], state=[("_device_index","next device","hzip_core/opencl/cl_helper.cpp")], observe=["returned device/program or exception"])
prop("C40", "Every raised error is a standard exception carrying a valid message",
 "Every error type raised by any module can be caught as a standard exception, and its message is valid for as long as the error object lives and contains the reason it was created with for every type that keeps its reason. Assertion helpers raise exactly when their condition is false.",
 "inputs", "all error types, messages and copies", "A type that is not a standard exception escapes all handlers and kills the process; no test throws them.",
 ["hzip_core/errors/utils.h","hzip_core/errors/opencl.h","hzip_core/errors/transform.h","hzip_codec/errors/codec.h","hzip_codec/errors/processor.h","hzip_storage/errors/archive.h","hzip_network/errors/api.h"], [("error classes","hzip_core/errors/utils.h")], observe=["catch (std::exception&), what()"])
prop("C41", "JPEG headers read from and written to bundles are preserved",
 "A JPEG's header fields captured on reading are the ones the decoder reported and restoring them on writing hands exactly those values to the encoder, for every image the library accepts. Header and quantisation tables stay valid after the decoder is released, and every coefficient block of every component is captured in raster order.",
 "inputs", "all JPEG headers", "Not tested.",
 ["hzip_core/preprocessor/jpeg_codec.h"], [("JPEG codec header snapshot","hzip_core/preprocessor/jpeg_codec.h")], observe=["header struct"])
prop("C42", "An interrupted write never loses data that was stored before",
 "If the process or machine stops at any point while an archive is being modified, reopening the archive gives access to every file that was completely stored at the last successful close.",
 "crash_points", "all crash points in all operations", "No test interrupts a write.",
 ["hzip_storage/archive/archive.cpp"], [("HZ_Archive::close writes the end marker; no journal","hzip_storage/archive/archive.cpp")], observe=["reopened archive"])
prop("C43", "Server start-up, signals and shutdown leave archives closed",
 "Starting the server with any command line and environment and stopping it by a termination signal at any time closes every open archive exactly once.",
 "schedules configurations", "all command lines and signal times", "Not tested.",
 ["main.cpp","hzip_network/api/api.cpp"], [("main, Api::shutdown","main.cpp")], observe=["archive files after shutdown"])
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
