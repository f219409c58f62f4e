#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list stays reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
ALLDEC=["src/codecs/bmp/decoder.rs","src/codecs/tga/decoder.rs","src/codecs/pnm/decoder.rs","src/codecs/hdr/decoder.rs","src/codecs/dds.rs","src/codecs/dxt.rs","src/codecs/ico/decoder.rs","src/codecs/farbfeld.rs","src/codecs/gif.rs","src/codecs/png.rs","src/codecs/tiff.rs","src/codecs/webp/decoder.rs","src/codecs/qoi.rs","src/codecs/jpeg/decoder.rs","src/codecs/openexr.rs","src/codecs/avif/decoder.rs"]
ALLENC=["src/codecs/bmp/encoder.rs","src/codecs/tga/encoder.rs","src/codecs/pnm/encoder.rs","src/codecs/hdr/encoder.rs","src/codecs/ico/encoder.rs","src/codecs/farbfeld.rs","src/codecs/gif.rs","src/codecs/png.rs","src/codecs/tiff.rs","src/codecs/webp/encoder.rs","src/codecs/qoi.rs","src/codecs/jpeg/encoder.rs","src/codecs/openexr.rs","src/codecs/avif/encoder.rs"]

p("C01","Decoding does not depend on how the source delivers its bytes",
 "For every supported format, decoding the same bytes gives the same outcome (same success or failure, dimensions, colour type, pixels, metadata and animation frames) whether the source hands them over in one piece, one byte at a time, or in any other sequence of short reads and buffer sizes. A read that is merely interrupted is retried (or, where a format is parsed by a codec crate that does not retry, reported as an error) and never changes a result that is reported as success.",
 ["schedules","inputs"],"every byte stream of a supported format x every sequence of short/interrupted reads a Read+BufRead+Seek source may legally produce",
 "Tests decode from Cursor or a BufReader over a local file, which practically always return every requested byte in one call; the space of delivery schedules is never visited.",
 ALLDEC+["src/image_reader/image_reader_type.rs"],[("read_exact / read_to_end / byteorder helpers instead of bare read","every decoder"),("BufRead/Seek adapters","src/codecs/farbfeld.rs, src/codecs/tiff.rs")],
 ["ImageReader::decode","ImageDecoder::read_image","AnimationDecoder::into_frames"])
p("C02","A failing source is reported, never turned into pixels",
 "If any read or seek on the source fails while an image or animation is being opened or decoded, the operation either returns an error or produces exactly what it would have produced without the failure. It never panics, never reports success with missing, zeroed or repeated pixel data, and every animation frame delivered before the error is the frame a fault-free run delivers at that position.",
 ["fault_sequences","crash_points","inputs"],"every file x every position in the sequence of reads/seeks x transient or persistent failure of every error kind",
 "No test injects an I/O error at all; Cursor cannot fail.",
 ALLDEC,[("error propagation with ?","every decoder"),("read adapters that keep partial state","src/codecs/pnm/decoder.rs, src/codecs/hdr/decoder.rs, src/codecs/farbfeld.rs")],
 ["ImageReader::decode","ImageDecoder::read_image","AnimationDecoder::into_frames"])
p("C03","A truncated file is never reported as a complete image",
 "If the stored bytes end early at any position, decoding returns an error unless the bytes present already determine every pixel, in which case the result equals that of the complete file; pixel data is never invented for the missing part. (JPEG, whose decoder is documented to be lenient, is excluded; animation frames delivered from a truncated file equal the frames of the complete file.)",
 ["crash_points","inputs"],"every file x every prefix length (a torn write or interrupted download)",
 "Tests contain a handful of hand-picked truncated files; the property quantifies over every cut in every variant of every format.",
 ALLDEC,[("read_exact and explicit EOF errors","every decoder")],["ImageReader::decode","ImageDecoder::read_image","AnimationDecoder::into_frames"])
p("C04","Work is bounded whatever the source does",
 "Opening, probing, decoding, or iterating the frames of any stream terminates after a number of source operations bounded by the stream length and image size, even when the source keeps failing, stays at end-of-file, or holds corrupted bytes. In particular an error that repeats forever cannot make a header parser, a frame iterator that stops at the first error, or a dropped decoder spin.",
 ["fault_sequences","crash_points","inputs"],"every stream x every point after which the source permanently fails, ends, or is corrupted",
 "Tests never use a source that fails persistently, so a retry loop that swallows errors is invisible.",
 ALLDEC+["src/animation.rs"],[("loops over input that stop on error or EOF","src/codecs/pnm/decoder.rs, src/codecs/hdr/decoder.rs, src/codecs/gif.rs, src/codecs/png.rs")],["all decode entry points"])
p("C05","Encoded bytes do not depend on how the sink accepts them",
 "For every encoder, when the operation reports success the bytes that reached the sink are exactly the complete encoding that an ideal sink receives, however the sink splits, shortens or interrupts the writes. Nothing is lost, duplicated or reordered.",
 ["schedules","inputs"],"every image x encoder configuration x every sequence of partial and interrupted writes a sink may legally produce",
 "Tests encode into Vec/Cursor, which accept everything in one call.",
 ALLENC+["src/image_reader/free_functions.rs"],[("write_all / buffered writers flushed before returning","every encoder"),("bit and line writers with carry-over state","src/codecs/jpeg/encoder.rs, src/codecs/pnm/autobreak.rs, src/codecs/tga/encoder.rs")],
 ["ImageEncoder::write_image","DynamicImage::write_to","save_buffer"])
p("C06","A failed, refused or lost write is never reported as success",
 "If any write, flush or seek on the sink fails, or the disk fills up, at any point of encoding an image or animation (including finalisation and the closing of a file opened by a save function), the operation reports an error to the caller; success means that the complete encoding was accepted by the sink. No such failure causes a panic.",
 ["fault_sequences","crash_points","inputs"],"every image x encoder configuration x every position at which a sink operation fails transiently or persistently, or accepts zero bytes",
 "No test has a failing sink; errors raised while a buffer is flushed or a trailer is written on drop are silently discarded and cannot be seen by a round-trip test.",
 ALLENC+["src/image_reader/free_functions.rs","src/dynimage.rs","src/buffer.rs"],[("error propagation and explicit finish/flush","every encoder, save_buffer_with_format_impl")],
 ["ImageEncoder::write_image","DynamicImage::write_to","DynamicImage::save","ImageBuffer::save","save_buffer","GifEncoder"])
p("C07","Decoding an encoded image gives it back, exactly where the format is lossless",
 "An image encoded to a lossless format (PNG, BMP, TGA, PNM, farbfeld, QOI, TIFF, WebP lossless, ICO, OpenEXR float, and GIF for images of at most 256 opaque colours) and decoded again has the same dimensions, the same colour type where the format can express it, and exactly the same samples, and an attached ICC profile survives where the encoder accepts one. Where the format itself loses something, no more is lost than its parameters determine: palette BMP gives back the colours of the palette, Radiance HDR each sample to within one part in 128 of the pixel's largest one (saturated at the ends of the exponent's range), JPEG each block of pixels to within the error of quantisation at the chosen quality. This holds for every content and every size that the format and the limits declared by its encoder and decoder allow (a larger or an empty image may be refused with an error, never with a panic), through the in-memory, writer/reader and file-path interfaces, and however storage fragments the transfer.",
 ["inputs","schedules","configurations"],"every image (size, colour type, content) x encoder options x every legal fragmentation of writes and reads on the way to and from storage",
 "Tests round-trip a few fixed images per format in one piece.",
 ALLENC+ALLDEC,[("inverse encode/decode pairs","src/codecs/*"),("run-length and packet coders","src/codecs/tga/encoder.rs, src/codecs/bmp/encoder.rs")],
 ["ImageEncoder::write_image + ImageDecoder::read_image","save + open"])
p("C08","Animations replay as the recorded sequence of frames",
 "Decoding an animation yields exactly the frames obtained by compositing the stored frames in order onto the canvas with their offsets, blend and disposal modes, with the stored delays, and iteration ends after the last one. A sequence of frames given to the animation encoder comes back as the same pixels, delays (to format resolution) and number of frames, whatever sequence of encoding calls was used.",
 ["histories","inputs","schedules"],"every sequence of frames (offset, size, blend, disposal, delay) x every way of issuing the encode calls x fragmentation of the transfer",
 "Tests cover a few existing files and 1-2 frame sequences; frame N depends on the whole history of canvas states.",
 ["src/codecs/gif.rs","src/codecs/png.rs","src/codecs/webp/decoder.rs","src/codecs/webp/encoder.rs","src/animation.rs"],[("GifFrameIterator canvas blending/disposal","src/codecs/gif.rs"),("ApngDecoder current/previous/dispose","src/codecs/png.rs"),("Frames iterator","src/animation.rs")],
 ["AnimationDecoder::into_frames","GifEncoder::encode_frame(s)"],[("canvas","composited image carried from frame to frame","src/codecs/gif.rs, src/codecs/png.rs")])
p("C09","Rectangle reads agree with the full image in any order",
 "For decoders that can decode a rectangle, any sequence of rectangle requests (any order, overlap, size, position and row pitch) writes exactly the corresponding part of the fully decoded image and nothing outside it, or returns an error for an invalid rectangle. A request that failed because the source failed does not make later successful requests return wrong pixels.",
 ["histories","fault_sequences","inputs"],"every image x every sequence of valid and invalid rectangle requests x source failures between and inside them",
 "Tests read one or two rectangles from fixed images on a source that never fails.",
 ["src/image.rs","src/codecs/bmp/decoder.rs","src/codecs/farbfeld.rs"],[("load_rect with seek/scanline callbacks","src/image.rs"),("FarbfeldReader offset/cached byte","src/codecs/farbfeld.rs")],
 ["ImageDecoderRect::read_rect"],[("current_offset/cached_byte","position of the farbfeld stream","src/codecs/farbfeld.rs")])
p("C10","Resource limits hold for every stream",
 "With limits set, a decode either succeeds within them or fails with an error: an image wider or higher than the dimension limits is always refused, an image whose pixels need more than the allocation limit is refused without allocating them, and total memory use stays within the limit plus an allowance for fixed tables, a row of the image and the stream itself. This holds for every stream, including corrupted headers that declare enormous sizes, and for animation frames as well as still images.",
 ["inputs","configurations","fault_sequences"],"every stream (valid, truncated, with corrupted size fields) x limit values",
 "Tests check one or two limit values on valid files and do not observe allocations.",
 ["src/image_reader/mod.rs","src/image_reader/image_reader_type.rs"]+ALLDEC,[("Limits::reserve/check_dimensions, ImageDecoder::set_limits","src/image_reader/mod.rs, every decoder"),("incremental allocation while reading","src/codecs/pnm/decoder.rs, src/codecs/bmp/decoder.rs")],
 ["ImageReader::limits + decode/into_decoder","ImageDecoder::set_limits","into_frames"])
p("C11","Damaged files produce an error or an image, never a crash",
 "Decoding a stored file after any damage (flipped bits, overwritten or zeroed ranges, lost or repeated blocks, concatenation of two files, truncation) through any decoding interface returns an error or an image of the declared size; it does not panic, abort, overflow the stack or read outside the file's own content.",
 ["fault_sequences","inputs"],"every file x every sequence of storage corruption events",
 "Unit tests hold a few historical crashers; the fuzz targets in the repository are not part of the tests and are not run.",
 ALLDEC,[("validation of header fields before use","every decoder")],["ImageReader::decode","ImageDecoder::*","into_frames","read_rect"])
p("C12","Format detection and opening leave the stream where it belongs",
 "Guessing the format examines only the bytes from the stream's current position, reports the same answer for every way the bytes are delivered, and restores the position exactly, so that decoding after a guess equals decoding without it; a failure while guessing is returned as an error. Content takes precedence over the file extension, and when content is not recognised the previously set format is kept.",
 ["schedules","histories","fault_sequences","inputs"],"every stream prefix and length x initial position x delivery schedule x order of guess/set/clear/decode calls x source failure at any operation",
 "Tests guess from complete in-memory files at position 0.",
 ["src/image_reader/image_reader_type.rs","src/image_reader/free_functions.rs"],[("with_guessed_format: stream_position, take(16), seek back","src/image_reader/image_reader_type.rs")],["ImageReader::with_guessed_format","guess_format","ImageReader::open","load"])
p("C13","Asking for metadata never changes what is decoded",
 "Dimensions, colour type, ICC profile, Exif data and orientation may be queried any number of times in any order before decoding, give the same answers (what the file stores) each time and through a boxed or concrete decoder alike, and do not affect the pixels decoded afterwards. If the source fails during a query the query reports an error or the true answer, not a silently absent value.",
 ["histories","fault_sequences","configurations"],"every file x every sequence of metadata queries before decoding x static or dynamic dispatch x source failures during queries",
 "Tests ask for one piece of metadata once, through one interface, on a healthy source.",
 ["src/image.rs","src/metadata.rs","src/codecs/png.rs","src/codecs/tiff.rs","src/codecs/webp/decoder.rs","src/codecs/jpeg/decoder.rs","src/codecs/avif/decoder.rs"],[("metadata accessors that read from the stream","src/codecs/webp/decoder.rs, src/codecs/tiff.rs, src/codecs/png.rs"),("forwarding impl for Box","src/image.rs")],["ImageDecoder::{icc_profile,exif_metadata,orientation,original_color_type}","ImageReader::into_decoder"])
p("C14","Parallel pixel iteration equals sequential iteration",
 "For every image, number of threads and thread schedule, the parallel pixel iterators visit each pixel exactly once, with the coordinates, value, length and logical order (including reversed, zipped, enumerated, chunked and skipped adaptors) of the sequential iterators, and building an image from a parallel function gives the image that a sequential loop gives. Mutations through the parallel iterators land on the pixels they were addressed to, also when another closure invocation panics.",
 ["schedules","inputs"],"every image size and pixel type x every split, steal and interleaving decision of the thread pool x adaptor chain x panicking callbacks",
 "Tests run the real pool on one size and observe whichever single schedule the OS picks.",
 ["src/buffer_par.rs","src/buffer.rs"],[("PixelsPar/EnumeratePixelsPar producers","src/buffer_par.rs"),("from_par_fn","src/buffer_par.rs")],["ImageBuffer::par_pixels*","ImageBuffer::par_enumerate_pixels*","ImageBuffer::from_par_fn"])
p("C15","Multi-threaded codecs give the same result under every schedule",
 "Encoding or decoding with codecs that use worker threads (OpenEXR, AVIF) yields the same image (the same bytes for AVIF with a given thread setting; for OpenEXR the same header and blocks, whose order of storage in the file the format leaves open), or the same success/failure, for every number of worker threads and every interleaving, and always completes (no deadlock, no lost wake-up), also when the source or sink fails while workers are busy.",
 ["schedules","fault_sequences","inputs"],"every image x thread count x interleaving of caller and worker threads x I/O failure points",
 "Tests observe one OS-chosen schedule per run on one machine and never with failing I/O.",
 ["src/codecs/openexr.rs","src/codecs/avif/encoder.rs"],[("hand-over of blocks between reader/writer and pool","src/codecs/openexr.rs"),("with_num_threads","src/codecs/avif/encoder.rs")],["OpenExrDecoder/Encoder","AvifEncoder"])
p("C16","Independent operations do not affect one another",
 "Decoding, encoding or transforming several images concurrently from different threads, interleaved in any way, gives each of them exactly the result it has when run alone, even when one of the others fails, panics in a caller-supplied reader or writer, or is abandoned half-way; the same holds for operations run one after another in the same process.",
 ["schedules","histories","fault_sequences"],"every set of operations x every interleaving at I/O, allocation and synchronisation points x failures and abandonment of a subset",
 "Tests run each operation in isolation and cannot control interleaving; shared mutable state would show only under particular interleavings.",
 ["src/lib.rs","src/codecs","src/imageops/sample.rs","src/color.rs"],[("absence of shared mutable state; per-operation buffers","whole crate")],["all public decode/encode/imageops entry points"])
p("C17","Encoders survive failure and abandonment without lying",
 "After a failed call, an encoder that remains usable never panics on any later call or on drop, and a later success it reports is true of the bytes in the sink: what has been written is a valid stream holding exactly the frames reported as successfully encoded, or the later calls keep failing. An encoder or decoder abandoned at any point releases its resources, does not touch its source or sink afterwards, and writes nothing other than the completion of what was accepted.",
 ["histories","fault_sequences","crash_points"],"every sequence of encoder calls x every failure point inside them x every point of abandonment",
 "Tests use each encoder once, on a healthy sink, to completion.",
 ["src/codecs/gif.rs","src/codecs/hdr/encoder.rs","src/codecs/tga/encoder.rs","src/codecs/pnm/encoder.rs"],[("GifEncoder lazily created inner encoder and taken writer","src/codecs/gif.rs"),("Drop of inner encoders","src/codecs/gif.rs, src/codecs/png.rs")],["GifEncoder::*","ImageEncoder::write_image","Drop"],[("gif_encoder / w","writer moved into the inner encoder on first use","src/codecs/gif.rs")])
p("C18","Decoded pixels do not depend on the memory they are decoded into",
 "A successful decode fully determines every byte of the output buffer: the result is the same whatever the buffer contained before, wherever it is aligned, and whatever stale data or minimal alignment the allocator gives internal buffers.",
 ["configurations","inputs"],"every file x every prior content and alignment of the caller's buffer x every legal behaviour of the allocator",
 "Tests decode into freshly zeroed, generously aligned vectors.",
 ALLDEC,[("every row/pixel written, unaligned fallbacks","src/codecs/png.rs, src/codecs/avif/decoder.rs, src/codecs/tiff.rs, src/codecs/openexr.rs, src/codecs/bmp/decoder.rs")],["ImageDecoder::read_image"])
PURE="pure function of its arguments"
p("C19","Colour conversions preserve range, extremes and alpha",
 "Converting between any two pixel types maps minimum to minimum and maximum to maximum, is monotone per channel, preserves grey and alpha, and widening followed by narrowing returns the original sample.",
 ["inputs"],"every pixel value x every ordered pair of pixel types","Tests sample a few values per pair.",
 ["src/color.rs","src/traits.rs","src/dynimage.rs"],[("FromPrimitive/FromColor impls","src/color.rs")],["Pixel::to_*","DynamicImage::to_*"])
p("C20","Resampling and filtering keep size, constants and bounds",
 "Resizing, thumbnailing, blurring and convolving return the requested dimensions, map a constant image to the same constant, keep every sample inside its type's range and never read outside the image, for every size ratio and filter.",
 ["inputs"],"every image, target size, filter and kernel","Tests resize a few fixed images.",
 ["src/imageops/sample.rs","src/imageops/fast_blur.rs"],[("window clamping and weight normalisation","src/imageops/sample.rs")],["imageops::*"])
p("C21","Geometric transforms are exact permutations with the expected inverses",
 "Flips, rotations, cropping, overlaying, replacing, tiling and orientation changes move samples without altering them, agree between their copying, in-place and view forms, and compose to the identity with their inverses.",
 ["inputs"],"every image, offset and orientation","Tests use tiny fixed images.",
 ["src/imageops/affine.rs","src/imageops/mod.rs","src/metadata.rs"],[("coordinate maps and overlay bounds","src/imageops/mod.rs")],["imageops::*","DynamicImage::apply_orientation"])
p("C22","Pixel containers never index outside their samples",
 "Image buffers, sub-image views and flat sample layouts accept exactly the coordinates inside the image, map distinct coordinates to distinct samples, reject layouts whose samples do not fit the buffer or alias, and agree with each other on every pixel.",
 ["inputs","programs"],"every layout, stride, size and coordinate","Tests probe hand-picked layouts.",
 ["src/buffer.rs","src/flat.rs","src/image.rs"],[("index computation with checked arithmetic","src/buffer.rs, src/flat.rs")],["ImageBuffer","FlatSamples","SubImage"])
p("C23","Valid foreign files decode to the pixels their format defines",
 "Every valid file of a supported format, whoever wrote it, decodes to the samples that the format's specification assigns to it (within the codec's documented tolerance for lossy formats).",
 ["inputs"],"every valid file of every format variant","The reference-image tests compare about 200 fixed files.",
 ALLDEC,[("format decoders","src/codecs")],["ImageReader::decode"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
