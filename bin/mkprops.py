#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property list)."""
import json, os
P = []
def p(id, title, statement, over, text, tests, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": tests, "anchors": a})

HOOK = "the module is private: re-exported as adhoc_audio::verif under --cfg adhoc_verif"
A, F, W, B = "src/codec/adhoc.rs", "src/codec/adhoc/frame.rs", "src/codec/wav.rs", "src/collections/bitstream.rs"
C = "src/codec.rs"

p("C01", "Level 0 is lossless on 16-bit samples",
  "At compression level 0, encoding any finite interleaved signal, for any number of channels and any division into encode calls, then rewinding and decoding returns exactly the encoded samples, in order and in their channels, as their 16-bit quantisation: clamped to [-1, 1], multiplied by 32767, fraction dropped, divided by 32767. This holds for every waveform, including full-scale jumps, single-sample spikes, noise and silence, and for any length of stream. Infinite samples are clamped like others beyond full scale, and a sample that isn't a number may become anything, but disturbs no other.",
  ["inputs", "histories"], "all signals, channel counts, divisions of the signal into encode calls, lengths",
  "The tests decode two 13-14 sample ramps to within 0.01 and never compare the decoded file with its source; errors in prediction, entropy coding, bit packing or frame headers only show for particular residuals, alignments, frame counts or channel counts.",
  [A, F, C, B, "src/math/parabola.rs", "src/collections/stack.rs", "src/collections/nibble_list.rs"],
  [("prediction from three-sample history, mirrored in encoder and decoder", F), ("Rice coding of the wrapped residual", B), ("per-frame header (exponent, size)", F), ("channel (de)interleaving", A)],
  [("sample_history", "last samples of a channel, must agree between encoder and decoder", F), ("bit_cursor", "position in the bit stream", B)],
  ["AdhocCodec::{encode,init,decode}"])

p("C02", "Levels 1 to 10 keep every sample within the quantisation bound",
  "At compression level L between 1 and 10 (values above 10 count as 10), every decoded sample of a signal within [-1, 1] differs from the sample that was encoded by at most 2^L/32767 (the quantisation step) plus 0.001 (the dither). The bound holds for every sample of a stream of any length: errors never accumulate, whatever the waveform. Samples outside of [-1, 1], infinite ones or ones that aren't numbers don't affect the others.",
  ["inputs", "configurations"], "all signals in [-1,1], levels 1-10, channel counts, divisions into encode calls",
  "The only test above level 0 (re_encode) checks that nothing panics; it doesn't look at the decoded audio.",
  [A, F], [("scale / inv_scale", A), ("dithering before quantisation", A), ("residual coding without saturation", F)], None,
  ["AdhocCodec::{with_compression_level,encode,decode}"])

p("C03", "Decoding doesn't depend on how the stream is read",
  "Each adhoc decode call returns as many samples as fit in the buffer in whole frames (one sample per channel), or all that are left if that's fewer, and None exactly when that number is zero; consecutive calls return consecutive samples. So any sequence of buffer sizes yields the same samples as one large read, and the part of the buffer beyond the returned count is left untouched.",
  ["histories", "inputs"], "all sequences of decode buffer sizes over all streams, channel counts and levels",
  "Tests decode with a single buffer or with a fixed 1024-sample buffer, and never compare two ways of reading.",
  [A, F], [("per-channel buffers refilled when empty", A), ("legal_output_len", A)],
  [("buffered_channel", "decoded samples not handed out yet", F)], ["AdhocCodec::decode"])

p("C04", "Encoding accounts for every whole frame of input",
  "An adhoc encode call stores exactly the whole frames (one sample per channel) of its input, for any input length including zero, one or two frames and more than 65535 frames, and returns the number of samples stored. The per-channel sample count reported for the stream, the total that decodes, and the sum of the returned counts divided by the channels always agree; at level 0 neither depends on how the input is divided into encode calls.",
  ["inputs", "histories"], "all sequences of encode call lengths, channel counts, levels",
  "Tests encode one or two short slices, or 1024-sample slices, and ignore the return value; the sample count function has no test.",
  [A, F], [("division of the input into frames of at most 65535 samples", A), ("frame sizes in headers", F), ("calculate_sample_count_per_channel", A)],
  None, ["Streamable::encode", "AdhocCodec::calculate_sample_count_per_channel"])

p("C05", "A saved adhoc stream loads back as the same stream",
  "Loading what an adhoc codec saved yields a stream with the same sample rate, channel count, sample count and decoded samples, starting at its beginning. This holds at whatever moment the stream was saved (right after encoding, after rewinding, in the middle of decoding, after a seek, after loading), and saving changes nothing in the codec that is saved. Loading takes exactly the bytes that saving wrote, so streams that are saved one behind the other are loaded one after the other.",
  ["histories", "inputs"], "all histories of encode, decode, seek, rewind, save and load calls",
  "re_encode writes a file but never loads it; the decoding doc-test loads one file and doesn't compare anything.",
  [A, F, B, "src/codec/adhoc/audio_stream.rs"], [("save_to / load (bincode of level, frame headers, bit stream)", A), ("load rewinds all cursors", A)],
  None, ["AdhocCodec::{save_to,load}"])

p("C06", "Seeking an adhoc stream positions it exactly",
  "After seeking an adhoc stream to t milliseconds from its start, decoding continues with frame floor(sample_rate * t / 1000) and returns exactly the samples a full decode returns from there on; at or past the end nothing is left and decode returns None, without panicking for any t. This holds from any state of a completely encoded or loaded stream, for any sequence of seeks and partial decodes.",
  ["histories", "inputs"], "all target times, sample rates, channel counts, frame layouts, sequences of seeks and decodes",
  "Tests only ever seek to 0, which takes an early return; the seek algorithm itself isn't executed by any test.",
  [A, F], [("search for the frame block over header sizes", A), ("restoring bit cursor, sample history and codec state from the header", A), ("pruning to the exact frame", A)],
  [("header_cursor", "next frame to decode", F)], ["Streamable::seek", "Streamable::decode"])

p("C07", "A rewound adhoc codec can be reused for a new stream",
  "After rewinding (init, or seeking to 0) an adhoc codec that holds a stream, encoding new audio replaces the old stream completely: decoding, seeking, the sample count and a saved and loaded copy show only the new audio, as for a codec that was never used before, whether the new stream is shorter or longer than the old one. Rewinding and then not encoding keeps the old stream.",
  ["histories"], "all histories of encode, rewind, decode, and re-encode with shorter or longer streams",
  "re_encode, despite its name, encodes once; no test encodes into a used codec.",
  [A, F, B, "src/collections/nibble_list.rs", "src/collections/bitvec.rs"], [("overwriting writes in the bit stream", B), ("frame headers cut off at the write position", F)],
  [("stale frame headers and stream bits", "left over from the previous stream", F)], ["AdhocCodec::{init,encode,decode,save_to}"])

p("C08", "The file size estimate is a tight upper bound",
  "At any time, the file size estimate in bits of an adhoc or wav codec is at least the number of bits that saving it at that moment writes. It is tight: for a wav it is exact, and for an adhoc stream it exceeds the actual size by no more than 64 bytes plus 5 percent.",
  ["histories", "inputs"], "all streams and histories (encoding, decoding, re-encoding, loading), with few or many frames",
  "No test calls the estimate.",
  [A, F, W, B], [("filesize_upperbound / calculate_weight_upperbound", F)], None, ["Streamable::filesize_upperbound", "save_to"])

p("C09", "Damaged adhoc files are rejected or harmless",
  "Loading a strict prefix of a saved adhoc file (a truncated file) fails. Loading a file with any other damage either fails or yields a codec with at least one channel and a level of at most 10 on which decoding, seeking, counting and saving neither panic nor hang; loading itself never panics or exhausts memory.",
  ["inputs", "crash_points"], "all prefixes of saved files, and files with corrupted bytes, lengths, counts and header fields",
  "No test loads a damaged file.",
  [A, F, B], [("validation in load", A), ("wrapping arithmetic in residual decoding", B)], None, ["AdhocCodec::load"])

p("C10", "The adhoc file format is stable and decoded bit-exactly",
  "Every file written is laid out as the format prescribes (level, frame headers, stream info, and the bit stream of Rice-coded residuals of the quadratic single-precision prediction), so that an independent decoder of the format recovers the same samples. Conversely every well-formed file of that format, with any choice of frame sizes and of Rice exponents from 1 to 14, decodes to exactly the samples the format defines: files saved by earlier versions keep their meaning.",
  ["inputs", "programs"], "all streams written, and all well-formed files including ones whose frame sizes and exponents this encoder wouldn't choose",
  "Tests never look inside a file and hold no file from an earlier version; a change made consistently to encoder and decoder passes any round-trip test but breaks stored files.",
  [A, F, B, "src/math/parabola.rs", C], [("serialised layout", A), ("bit layout of residuals, least significant bit first", B), ("prediction", F)], None,
  ["bytes of save_to", "AdhocCodec::load + decode"])

p("C11", "Every frame is coded at its cheapest Rice parameter",
  "For each stored frame of each channel, the bits used for its residuals are the minimum over all Rice exponents 1 to 15 for those residuals, at any compression level. So no signal is stored larger than with any fixed exponent, and a saved file is no larger than its headers and these frames need (plus less than 64 bytes).",
  ["inputs"], "all signals, channel counts, frame sizes, levels",
  "Tests print a compression ratio but assert nothing about size.",
  [F, A], [("compute_optimal_divisor_exponent", F)], None, ["bytes of save_to"])

p("C12", "A wav stream saves to a correct file and loads back",
  "Saving a wav codec writes a canonical 44-byte PCM header with the stream's sample rate, channels, 16 bits per sample, and the right sizes, followed by the samples as 16-bit little endian. Loading it gives back the same sample rate, channels and every sample exactly, for any length including empty and very short streams, positioned at the start.",
  ["inputs"], "all sample contents and lengths, sample rates, channel counts (with sizes that fit the header's fields)",
  "Tests save and re-export one file but never compare the result with the source.",
  [W], [("RawWavHeader", W), ("save_to / load", W)], None, ["WavCodec::{save_to,load,decode}"])

p("C13", "A wav stream is an array of samples with one cursor",
  "Encoding into a wav stream overwrites samples at the cursor and appends at the end, decoding reads from the cursor, and both advance it by the number of samples they return, which is the whole frames of the slice given (for decoding, as many of them as are left; None if zero). Stored samples are the 16-bit quantisation of the input (clamped to [-1, 1], times 32767, fraction dropped), decoded samples are the stored value divided by 32767, and samples and buffer parts not covered by a call stay as they were. A sample that isn't a number may be stored as anything, but takes up its place.",
  ["histories", "inputs"], "all sequences of encode, decode and seek calls, slice lengths, channel counts, sample values",
  "Tests only read one file through and append to an empty one.",
  [W, C], [("write_sample", W), ("decode", W)], [("short_cursor", "position in samples", W)], ["WavCodec::{encode,decode}"])

p("C14", "Seeking a wav stream lands on the right frame boundary",
  "Seeking a wav stream moves to the frame floor(sample_rate * |t| / 1000) frames after the start, or before or after the current frame or the end according to the sign of t, limited to the range from the start to the end of the stream. The position is always a frame boundary, and no seek panics, for any t and any stream including an empty one.",
  ["inputs", "histories"], "all offsets and origins (start, current, end), sample rates, channel counts, stream lengths",
  "No test seeks in a wav stream (the calls are commented out).",
  [W], [("seek", W)], [("short_cursor", "position in samples", W)], ["WavCodec::seek", "WavCodec::decode"])

p("C15", "Wav files of other programs are read correctly or refused",
  "Loading a RIFF/WAVE file with 8- or 16-bit PCM, with a data chunk that starts within the first 256 bytes after any other chunks, yields its sample rate, channels and exactly the samples of the data chunk: 16-bit ones unchanged, 8-bit ones within one 8-bit step of their value; chunks after the data chunk are ignored. Files with another encoding, another bit depth or no channels, or without data chunk, are refused with an error, and no byte string makes loading or decoding panic.",
  ["inputs"], "all layouts of chunks, bit depths, truncations and corruptions",
  "Tests load a single file with a canonical header.",
  [W], [("load", W)], None, ["WavCodec::load"])

p("C16", "Saving and loading survive short transfers and report failures",
  "When a writer takes only part of the bytes of a call or is interrupted, saving (adhoc or wav) still writes the same complete file, and when the writer fails, saving reports failure: it never reports success for an incomplete file. Likewise loading from a reader that returns its bytes in small pieces gives the same stream, and a reader that fails makes loading report failure.",
  ["fault_sequences"], "all sequences of partial transfers, interruptions and errors, at every byte position",
  "Tests only use files and vectors, which transfer everything at once and never fail.",
  [A, W], [("bincode::serialize_into / deserialize_from", A), ("write_all / read_to_end", W)], None, ["save_to", "load"])

p("C17", "The command line tool converts every input to its own output",
  "For any set of wav and adhoc inputs with distinct stems, the tool writes for each valid input one file into the output directory, named after the input's full stem with the other extension, and changes nothing else. The adhoc file holds the wav's audio at the requested compression level (5 by default), the wav file holds the adhoc's decoded audio; invalid or missing inputs don't affect the others, whatever the number of threads. Without an output directory of that name, nothing is written.",
  ["schedules", "inputs", "configurations"], "all sets of inputs, file names, options, thread counts and interleavings of the conversions",
  "The binary has no test.",
  ["src/main.rs", A, W], [("convert_file in a rayon loop", "src/main.rs")], None, ["files in the output directory"])

p("C18", "The bit stream returns what was written, at any alignment",
  "Bits written to the bit stream, in fields of 0 to 128 bits at any position, are read back with the same values by reading fields of any sizes from the same position, across all chunk boundaries. A write at the cursor leaves all bits before the cursor unchanged, also over existing content, and reads and writes move the cursor by exactly the field size, peeks not at all; the capacity is the highest position reached.",
  ["histories", "inputs"], "all sequences of writes, reads, peeks and repositionings with all field sizes and alignments",
  "Tests write one aligned sequence and cross one boundary once, on a fresh stream.",
  [B], [("write_bits / peek_bits over 128-bit chunks", B)], [("bit_cursor", "position", B)], ["BitStream"], HOOK)

p("C19", "Rice coding returns every 16-bit value exactly",
  "For every 16-bit value and every exponent from 1 to 15, reading a written value with the same exponent returns that value and stops exactly where the write stopped, at any bit position and between any other values; the code takes magnitude / 2^exponent + exponent + 2 bits. The capped variant returns every value within its range.",
  ["inputs", "histories"], "all values, exponents, alignments and neighbouring values",
  "Tests cover one value at a time at bit position 0, with exponent 1, for magnitudes up to 31000.",
  [B], [("write_compressed / read_compressed", B), ("write_compressed_capped / read_compressed_capped", B)], None, ["BitStream"], HOOK)

p("C20", "Packed bit and nibble lists behave as plain lists",
  "After any sequence of push, set, truncate and clear calls, the bit vector and the nibble list have the length and the elements that a plain list of bits or 4-bit values has after the same calls: neighbours are never disturbed, and elements pushed after a clear or truncation are read back as pushed, and behind the end, reading gives 0 and setting does nothing. The capacity of either is never less than its length, and the number of bits that n bits are said to require is n, rounded up to words of 64.",
  ["histories"], "all sequences of push, set, get, truncate and clear at all positions within words and bytes",
  "Tests push one sequence and set three elements of it; none pushes after a clear.",
  ["src/collections/bitvec.rs", "src/collections/nibble_list.rs"], [("masking within words", "src/collections/bitvec.rs"), ("masking within bytes", "src/collections/nibble_list.rs")], None, ["BitVec", "NibbleList"], HOOK)

p("C21", "The linked list is a sequence with stable handles",
  "After any sequence of operations the linked list yields the elements, in order, of the corresponding sequence, with matching length, front and rear. The handle of an element stays valid and keeps designating it until it is removed, removal returns exactly that element, and a reused node is never shared by two live elements.",
  ["histories"], "all sequences of push, pop, insert at and remove at (valid handles), including emptying and refilling",
  "One test performs eleven operations and prints the result.",
  ["src/collections/linked_list.rs", "src/collections.rs"], [("circular doubly linked nodes in a vector", "src/collections/linked_list.rs"), ("free pool", "src/collections/linked_list.rs")],
  [("memory/front/rear/pool", "nodes and free list", "src/collections/linked_list.rs")], ["LinkedList"], HOOK)

p("C22", "The LRU cache evicts the least recently used entry",
  "The cache never holds more entries than its capacity (of at least one); inserting a new key into a full cache removes exactly the entry least recently inserted, updated or fetched with priority, while looking up without raising changes nothing. Every lookup returns the value last stored for its key if the key is present, and nothing otherwise.",
  ["histories"], "all sequences of put, get, get_mut, lookup and remove, for all capacities of at least one",
  "The cache has no test.",
  ["src/collections/lru_cache.rs", "src/collections/linked_list.rs"], [("table of handles into the linked list", "src/collections/lru_cache.rs"), ("raise_key", "src/collections/lru_cache.rs")], None, ["LruCache"], HOOK)

p("C23", "The ring buffer is a bounded double-ended queue",
  "After any sequence of pushes and pops at either end, the ring buffer holds the elements of a double-ended queue in order, with the right length and full and empty flags. Pushing into a full buffer changes nothing, popping an empty one returns nothing, and clearing empties it.",
  ["histories"], "all sequences of operations, for all power-of-two capacities including 1",
  "One test pushes four elements at one end and never wraps around.",
  ["src/collections/queue.rs"], [("front/rear indices modulo capacity", "src/collections/queue.rs")], None, ["FixedRingBuffer"], HOOK)

p("C24", "The history stack remembers the last four values",
  "After any sequence of pushes and pops, looking back k values (k from 1 to the current length, at most 4) in the history stack returns the k-th most recently pushed value that hasn't been popped; looking back further, while it isn't empty, returns the oldest of them. Its length never exceeds 4, it is empty exactly when the length is 0, and pop returns the most recent value while it isn't empty.",
  ["histories"], "all sequences of pushes, pops and look-backs",
  "Tests push two values.",
  ["src/collections/stack.rs"], [("cursor modulo 4", "src/collections/stack.rs")], None, ["CircularStack"], HOOK)

p("C25", "Serialised collections continue as the original",
  "Serialising and deserialising any of the collections (linked list, LRU cache, ring buffer, history stack, bit vector, nibble list, bit stream) at any point of its life gives one that shows the same contents and responds to every further sequence of operations like the original would, in binary and in self-describing formats, whatever the order of fields.",
  ["histories"], "all collections, all histories before and after the round trip",
  "One test serialises a linked list and prints the copy.",
  ["src/collections.rs", "src/collections/linked_list.rs", "src/collections/lru_cache.rs"], [("hand-written Serialize/Deserialize for Node", "src/collections.rs"), ("derived implementations", "src/collections/linked_list.rs")], None, ["bincode of the collections"], HOOK)

p("C26", "Encoding is deterministic and codecs are independent",
  "Two adhoc codecs that get the same calls hold the same streams: they save identical bytes and decode identical samples, at every level, in any process and thread and however calls on other codecs are interleaved. Observing a codec (info, size estimate, sample count, saving) never changes what it does later.",
  ["histories", "schedules"], "all call histories, interleavings with other codecs, threads",
  "No test compares two runs.",
  [A, "src/math/noise.rs"], [("per-codec generator with fixed seed", A)], [("seq", "dither sequence", A)], ["AdhocCodec::{save_to,decode}"])

p("C27", "The dither noise is a bounded, reproducible sequence",
  "The noise generator's sequence is determined by its seed. Every value of the triangular distribution lies strictly between -1 and 1 and is the sum of a value in (-1, 0] and one in [0, 1), every value of the uniform one lies in [-1, 1), and over the generator's whole period the noise is balanced (its mean is within 0.01 of zero). A noise table holds the sequence of seed 123, of which its histogram counts every value in its interval.",
  ["inputs", "histories"], "all seeds' orbits, the whole period, all lengths of sequence",
  "The test prints a histogram.",
  ["src/math/noise.rs"], [("linear congruential generator", "src/math/noise.rs")], [("sequence", "generator state", "src/math/noise.rs")], ["PseudoRandom::{uniform,triangle}"], HOOK)

p("C28", "Signal helpers compute what they are defined to",
  "Both convolution routines give, at every position, the sum over the kernel of kernel value times the sample centred there, samples outside the signal counting as zero, for all signal and kernel lengths, and samples that aren't finite affecting only the places where the kernel covers them. Rescaling a signal to another length keeps its end points and interpolates linearly between neighbours, and never reads outside the signal. The mean squared error is that of the common part, the parabola goes through its three points, and the Gaussian kernel is the density of the given deviation, symmetric around its middle.",
  ["inputs"], "all signal, kernel and target lengths and (exactly representable) values",
  "The helpers have no test, except the parabola with one set of points.",
  ["src/math/signal.rs", "src/math.rs", "src/math/parabola.rs"], [("convolve_1d / convolve_1d_branchless / scale_signal / gaussian_filter", "src/math/signal.rs"), ("compute_mse", "src/math.rs"), ("FixedParabola", "src/math/parabola.rs")], None, ["math::signal", "math::parabola", "math::compute_mse"], HOOK)

p("C29", "Stream settings are the last ones set",
  "An adhoc codec's stream info is the last one given to it (with_info or set_info, before or after the level, in any order), info reports it and saved files carry it; levels above 10 count as 10. Setting another info (rate or channels) or another level on a new or rewound codec and then encoding gives the stream that a new codec with these settings gives, whatever the codec held before: the same counts, positions and samples, and a file as small. Giving only another rate, at any time, keeps the stream and the position in it: encoding and reading go on.",
  ["histories", "configurations"], "all sequences of settings, rates, channel counts and levels, over all earlier contents",
  "Tests configure each codec once, before its first use, and never with more than one info.",
  [A, C, F], [("set_info", A), ("with_info / with_compression_level", A), ("init of per-channel codecs", A)],
  [("stream_info", "channel count and rate", A), ("compression level", "scale of the quantiser", A)], ["AdhocCodec::{with_info,set_info,with_compression_level,info,encode,decode,save_to}"])

p("C30", "Converting between the formats settles after one pass",
  "Reading a wav or adhoc stream with any buffer of at least a frame and encoding what is read into a new stream of either format, for adhoc at level 0, gives a stream of the same rate, channels and length, in which each 16-bit sample is unchanged or one step closer to zero. Converting the result any number of times more, in either direction, with or without saving and loading in between, changes no sample any more; a conversion at a level L above 0 changes a sample within [-1, 1] by at most the bound of that level.",
  ["histories", "inputs"], "all 16-bit sample values, signals, channel counts, buffers and chains of conversions",
  "One test converts a wav file to adhoc and back once and looks at nothing but that it doesn't panic.",
  [A, W, C], [("normalize_sample / truncate_sample", C), ("decode loop over any Streamable", "src/main.rs"), ("save_to / load", A), ("save_to / load", W)], None,
  ["Streamable::{encode,decode,seek,info} of both codecs, save_to, load"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
