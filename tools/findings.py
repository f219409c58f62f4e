# ---- repaired
fixed("C02","fix: report I/O errors inside PNM headers","an I/O error in a PNM header token ended the token (wrong size decoded successfully)")
fixed("C04","fix: report I/O errors inside PNM headers","a persistently failing reader inside a PNM comment made the decoder loop forever")
fixed("C01","fix: retry interrupted reads in PAM headers","an interrupted read in a PAM header failed the decode")
fixed("C03","fix: report missing samples and I/O errors in plain PNM rasters","a plain PNM file cut in its raster decoded with zeros for the missing samples")
fixed("C02","fix: report missing samples and I/O errors in plain PNM rasters","an I/O error within a plain PNM sample ended the sample instead of being reported")
fixed("C01","fix: retry interrupted reads in HDR headers","an interrupted read in an HDR header failed the decode")
fixed("C03","fix: report a TGA file truncated within a run-length packet","a TGA file cut inside a run-length packet decoded with made-up pixels")
fixed("C02","fix: report I/O errors while reading the ICC profile of a TIFF file","an I/O error while reading the ICC profile of a TIFF file was reported as 'no profile'")
fixed("C03","fix: report I/O errors while reading the ICC profile of a TIFF file","a TIFF file cut inside its ICC profile decoded as a file without one")
fixed("C11","fix: report AVIF data without a picture instead of waiting for one forever","damaged AVIF data made the decoder spin forever")
fixed("C11","fix: respect the allocation limit when decoding WebP frames and metadata","a damaged animated WebP header made the frame iterator allocate gigabytes despite the limit, aborting the process")
# ---- open: defects of dependencies, reachable through image
DAMAGE=["C01","C04","C10","C11","C12","C13","C16"]
for p_ in DAMAGE:
    open_(p_,"no-progress|jpeg|*|zune-jpeg-0.4.21","zune-jpeg 0.4.21 loops forever in decode_mcu_ycbcr_progressive on a progressive JPEG with a damaged scan",["decode_into"])
for d in ["short","eintr"]:
    open_("C01",f"delivery-dependence|gif|*|{d}-refusal","weezl 0.1.12 (used by gif 0.13): a rare valid LZW stream is reported as truncated when it is delivered in one piece and decoded when delivered in smaller pieces",["delivered in one piece: Err(Decoding: Format error decoding Gif: image truncated)"])
    open_("C01",f"delivery-dependence|gif|*|{d}-refusal","weezl 0.1.12 (used by gif 0.13): a rare valid LZW stream is reported as invalid depending on where reads end",["invalid code in LZW stream"])
    for f in ["gif","tiff","exr"]:
        open_("C01",f"delivery-dependence|{f}|*|{d}-damaged-refusal",f"{dict(gif='gif 0.13 / weezl',tiff='tiff 0.9 / flate2',exr='exr 1')[f]}: whether a damaged stream (damage beyond the last needed byte, or in redundant fields) is refused or decoded depends on where reads end")
fixed("C09","fix: do not read wrong pixels after a failed rectangle read of a farbfeld image","after a rectangle read of a farbfeld image failed within a sample, later rectangles and the full image came out shifted")
fixed("C13","fix: keep the orientation of a boxed decoder","the orientation of a TIFF image was lost through ImageReader::into_decoder and every other boxed decoder")
fixed("C13","fix: do not lose the ICC profile of small TIFF images when limits are set","the ICC profile of a TIFF image with little pixel data was silently absent once limits (also the default ones) were set")
fixed("C18","fix: do not keep stale buffer contents for GIF indices outside the palette","pixels of a GIF whose index is outside the palette kept the caller's old buffer contents")
fixed("C11","fix: do not form slices over the missing chroma planes of monochrome AVIF images","decoding an 8-bit grayscale AVIF image formed slices from null pointers, which aborts in builds with debug assertions")
fixed("C18","fix: do not keep stale buffer contents for the missing part of a JPEG image","the missing part of a damaged JPEG kept the caller's old buffer contents")
fixed("C18","fix: ignore the color map of TGA images that are not color mapped","a true-color TGA with a color map left part of the output buffer unwritten")
fixed("C11","fix: do not panic on WebP frames in a file without the animation flag","into_frames of a WebP with ANMF chunks but without the animation flag panicked")
fixed("C11","fix: do not panic when reading the indices of a BMP image that is not 8-bit indexed","reading the indices of a BMP image with less than 8 bits per pixel, run-length encoding or true colour panicked")
fixed("C11","fix: expand the bits of rows of any width without overflow","a PBM image without rows and with a width close to 2^32 overflowed an addition (a panic in builds with overflow checks)")
fixed("C11","fix: do not overflow on long chains of run-length markers in HDR images","a chain of run-length markers of length zero in an HDR scanline overflowed the run multiplier")
for p_ in DAMAGE:
    open_(p_,"alloc-abort|exr|*|zune-inflate-0.2.54","exr 1.74 / zune-inflate 0.2: a damaged data window makes the chunk decompressor reserve gigabytes up front; the allocation failure aborts the process",["zip.rs"])

fixed("C05","fix: handle short writes in the TIFF encoder","the TIFF encoder lost data when the writer accepted only part of a buffer")
fixed("C06","fix: report errors while flushing saved image files","save_buffer and save reported success although writing out the file failed (errors while flushing the BufWriter were dropped)")
fixed("C06","fix: report errors while writing the end of a PNG file","the PNG encoder reported success although the end of the file could not be written")
fixed("C06","fix: report errors while writing the end of a GIF file","saving a GIF reported success although the end of the file could not be written")
open_("C06","write-failure-hidden|gif|Encoder|trailer","a GifEncoder used directly writes the end of the file in its destructor, which cannot report a failure (there is no finishing call in the public interface)")
fixed("C07","fix: check sample values against the maximum of a chosen PNM header","the PNM encoder refused images that fit the chosen header's maximum and accepted those that do not")
fixed("C07","fix: write samples of plain PBM images as bits","plain PBM output was inverted or invalid")
fixed("C07","fix: write binary PNM samples with the width the chosen header asks for","the PNM encoder ignored the sample width that the chosen header's maximum implies")
fixed("C07","fix: read wide samples of PAM images without a tuple type","a PAM image without a tuple type and with two-byte samples was read as one with single bytes")
fixed("C17","fix: fail instead of panicking or continuing after an error in GifEncoder","a GifEncoder panicked on the call after a failed first frame, and reported success for frames behind a partly written one")
fixed("C17","fix: do not mix bits of a previous image into a JPEG image","a reused JpegEncoder wrote left-over bits of the previous image into the next one")

fixed("C07","fix: do not panic when encoding a PBM image without columns","encoding an image of width 0 as binary PBM panicked")
fixed("C07","fix: refuse to encode an empty OpenEXR image instead of panicking","encoding an empty image as OpenEXR panicked")

# ---- C08 animations
fixed("C08","fix: restore the cleared canvas after an APNG frame disposed to background","an APNG frame disposed to the previous contents brought back the contents from before the disposal of the frame before it")
open_("C08","wrong-frame|png|frames|narrow-interlaced","png 0.17 writes the rows of an interlaced frame that is narrower than the canvas with the distance of the rows of the canvas")
open_("C08","wrong-frame|webp|frames|background-channels","image-webp 0.2.1 uses the background colour of the ANIM chunk, which is stored as B, G, R, A, as R, G, B, A")
open_("C08","wrong-frame|webp|frames|whole-canvas-disposed","image-webp 0.2.1 clears the whole canvas instead of the area of the frame when the frame after a disposed one has the size of the canvas and is blended")
open_("C08","animation-refused|gif|frames|gif-0.13-weezl-0.1.12","weezl 0.1.12 (used by gif 0.13): a rare valid LZW stream is reported as truncated or invalid")
open_("C08","still-refused|gif|frames|gif-0.13-weezl-0.1.12","weezl 0.1.12 (used by gif 0.13): a rare valid LZW stream is reported as truncated or invalid")
open_("C08","unreadable|gif|encode|gif-0.13-weezl-0.1.12","weezl 0.1.12 (used by gif 0.13): a rare valid LZW stream is reported as truncated or invalid")
open_("C07","round-trip|gif|*|gif-0.13-weezl-0.1.12","weezl 0.1.12 (used by gif 0.13): a rare valid LZW stream is reported as truncated or invalid")
open_("C07","round-trip|webp|*|image-webp-16384","image-webp 0.2.1 reads a width or height of 16384, the largest that its encoder writes, as 0 and then reports inconsistent image sizes",["Inconsistent image sizes"])
open_("C07","round-trip|jpeg|*|zune-jpeg-65529","zune-jpeg 0.4.21 computes the number of blocks of a width or height above 65528 in sixteen bits and returns a blank picture",["the block at"])
fixed("C07","fix: keep the exponent of HDR pixels within the range of the format","HDR pixels from 2^127 came back black (infinite ones overflowed an addition), tiny ones below 2^-129 came back huge")
fixed("C07","fix: write HDR scanlines of 32768 pixels without run-length encoding","an HDR image of 32768 columns was written in a form that cannot be read back")
open_("C17","success-not-in-sink|gif|*|gif-0.13-weezl-0.1.12","weezl 0.1.12 (used by gif 0.13): a rare valid LZW stream is reported as truncated or invalid")
fixed("C18","fix: set the alpha of run-length encoded BMP images inside ICO files","the alpha of a run-length encoded BMP image inside an ICO file was whatever the caller's buffer held")
# ---- C10 limits
fixed("C10","fix: keep APNG frame disposal within the memory limit","clearing the region of an APNG frame took twelve bytes per pixel that were not counted towards the memory limit")
fixed("C10","fix: decode HDR images without a second copy of the pixels","decoding an HDR image took twice the memory that the limit accounts for")
fixed("C10","fix: count the intermediate buffers of TGA images towards the memory limit","decoding a run-length encoded or color mapped TGA image took up to four times the memory that the limit accounts for")
for f,w in dict(jpeg="zune-jpeg 0.4.21 has no memory limit and keeps all coefficients of a progressive image and its output while image copies it",
    webp="image-webp 0.2.1 counts only its metadata towards its memory limit; its picture and canvas buffers come on top of the output",
    gif="gif 0.13 keeps one byte per pixel of a frame besides the RGBA output that is counted",
    exr="exr 1.74 decodes into its own buffers of samples, which have no limit",
    tiff="tiff 0.9 allocates the values of directory entries while the decoder is created, before limits can be set on it").items():
    open_("C10",f"over-limit|{f}|*|codec-buffers",w)
    open_("C10",f"allocates-before-refusing|{f}|*|codec-buffers",w)
for p_ in DAMAGE:
    open_(p_,"panic|jpeg|*|zune-jpeg-0.4.21","zune-jpeg 0.4.21 slices out of range in post_process on some damaged images",["worker.rs:233"])
