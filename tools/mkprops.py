import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,hook=False,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=("a delay point where a worker claims its next batch" if hook else None)
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

IMG="lib/src/Image.cpp";TEX="lib/src/Texture.cpp";CONV="lib/src/Converter.cpp";STD="lib/src/StandardConverter.h";STDC="lib/src/StandardConverter.cpp"
DDS="lib/src/SaveDds.cpp";KTX="lib/src/SaveKtx.cpp";PVR="lib/src/SavePvr.cpp";CL="tool/CommandLine.cpp";MAIN="tool/main.cpp"

p("C01","No API history causes memory errors or undefined behaviour",
 "Any sequence of calls to the public image and texture API, with any argument values (out-of-range coordinates, levels, depths and faces, every format/type combination, zero or odd sizes, empty or moved-from objects, NaN, infinite and huge pixel values, failing files and streams), completes without reading or writing outside live memory, without undefined behaviour such as an unrepresentable numeric conversion, without leaking and without crashing. A call that cannot be honoured reports that through its return value.",
 ["inputs","histories"],"all finite sequences of public Image/Texture calls with arbitrary argument values",
 "The unit tests call each operation once or twice on small well-formed images in an uninstrumented build; out-of-bounds reads, overflowing float-to-integer conversions and stale state after failed calls stay silent there.",
 [IMG,TEX,CONV,STD,STDC,"lib/src/Shared.cpp","lib/src/Shared.h","lib/src/HalfFloat.h"],
 [("bounds checks on pixel/scanline/level access","Image::scanline/getPixel/setPixel, Texture::getImage/setImage/data"),("value clamping before narrowing","Shared.h clamp, StandardConverter process(), Image.cpp setPixelImpl"),("ownership of the FreeImage bitmap","Image::Impl")],
 ["sanitizer reports","return values of every public call"])
p("C02","Conversion is race free and independent of thread count and schedule",
 "Converting a texture yields exactly the same bytes for every number of threads and every interleaving of the workers, with each pixel of each surface encoded exactly once. No two threads touch the same memory without synchronisation, and independent textures may be converted concurrently from different threads without affecting one another.",
 ["schedules","inputs","configurations"],"all thread counts, worker interleavings, texture shapes and formats",
 "Tests convert small textures once with the default thread count on an idle machine and never compare schedules; a lost or doubled batch or an unsynchronised access appears only under particular interleavings.",
 [CONV,STD,STDC,TEX],[("job queue shared by worker threads","Converter::convert"),("per-batch output slots","StandardConverter::process")],
 ["ThreadSanitizer reports","bytes of every converted surface"],True,[("job counter","next batch to be claimed by a worker")])
p("C03","Normalised pixel encodings hold the nearest value in the documented bits",
 "For every uncompressed format with an unsigned- or signed-normalised type, each channel of every pixel of the converted texture holds the nearest representable value to the source channel, clamped to the representable range, at the bit position the format's name documents. Pixels appear in row-major order from the upper-left corner, tightly packed, and the result does not depend on quality, alpha or colour-mask options.",
 ["inputs","configurations"],"all float pixel values (including out of range, denormal, infinite, NaN), all image sizes and all normalised format/type pairs",
 "Each format test encodes a handful of hand-picked mid-range colours in one image size; rounding boundaries, saturation, odd widths crossing batch limits and channel-order mistakes outside those colours go unseen.",
 [STD,STDC,CONV,"lib/src/Shared.h"],[("per-format encoders","StandardConverter.h/.cpp process()"),("format dispatch","Converter.cpp createConverter")],["Texture::data after convert"])
p("C04","Integer pixel encodings round to nearest and saturate",
 "For every format with an integer channel type, each stored channel equals the source channel rounded to the nearest integer and saturated to the channel's minimum and maximum, at the documented bit position. Values far outside the range, and infinities, store the corresponding limit.",
 ["inputs","configurations"],"all float pixel values and all integer format/type pairs, all image sizes",
 "Tests encode a few small in-range integers; saturation at 32-bit limits, ties, negative values into unsigned channels and 10-bit packed limits are not sampled.",
 [STD,STDC],[("integer encoders","IntConverter, A2*UIntConverter"),("clamp","Shared.h clamp")],["Texture::data after convert"])
p("C05","Floating-point encodings are the closest representable floats",
 "For every format with floating-point channels (32-bit, half, 11/11/10-bit and shared-exponent), decoding the stored bits yields the source value to within the format's precision, with values beyond the format's finite range stored as its largest value or infinity and negative values stored as zero in unsigned formats. 32-bit float channels are preserved bit for bit, and half encoding agrees whether or not hardware half-float support is used.",
 ["inputs","configurations"],"all float values and all float format/type pairs; with and without hardware half-float conversion",
 "Tests encode a few values near 0..1; denormals, overflow, negatives, exponent boundaries and the software fallback are not reached.",
 [STD,STDC,"lib/src/HalfFloat.h","lib/src/HalfFloat.cpp"],[("half packing","HalfFloat.h, HalfConverter"),("packed float encoders","B10R11R11UFloatConverter, E5B9G9R9UFloatConverter")],["Texture::data after convert"])
fmtwhy="The save tests only check that saving succeeds or compare a few header constants; they never re-read a file as a consumer would, so wrong sizes, surface order, flags or channel descriptions stay unseen."
for i,(n,f,spec) in {"C06":("DDS",DDS,"the DDS container"),"C07":("KTX",KTX,"the KTX 1.1 container"),"C08":("PVR",PVR,"the PVR v3 container")}.items():
    extra={"C06":"array elements, cube faces, mip levels and depth slices in that nesting order","C07":"mip levels, then array elements, cube faces and depth slices, with the image size of every level and rows padded to four bytes","C08":"mip levels, then array elements, cube faces and depth slices"}[i]
    p(i,f"A saved {n} file describes and contains exactly the converted texture",
     f"For every supported format, type, dimension, array length, cube map, mip count and colour space, an independent reader following the specification of {spec} recovers from a saved {n} file the same dimensions, array length, face count, mip count, channel layout, channel type and colour space as the texture. The payload holds every surface's bytes exactly once in the container's order ({extra}), with nothing missing, repeated or left over.",
     ["inputs","configurations"],f"all convertible textures supported by {n}",fmtwhy,[f,TEX],[("header and payload writer",f"{f} save{n.capitalize()}()")],["bytes of the saved file"])
p("C09","Format support queries, conversion, saving and documentation agree",
 "A format/type combination reported valid always converts and one reported invalid never does; a combination reported valid for a file type always saves to it and any other is refused as unsupported with nothing written, and the per-container support matches the documented table of unsupported formats. Native-sRGB, alpha, block-size and mip-count queries agree with the data actually produced, and automatic file-type detection depends only on the (case-insensitive) extension.",
 ["configurations","inputs"],"all format x type x file type x colour space combinations and all file names",
 "Tests probe each query for a few selected formats and never cross-check the queries against what conversion and saving actually do over the whole matrix.",
 [TEX,CONV,DDS,KTX,PVR,"README.md"],[("validity tables","Texture::isFormatValid, isValidForDds/Ktx/Pvr"),("block metrics","Texture::blockSize etc.")],["return values of queries, convert and save"])
p("C10","Saving never reports success for data that did not reach its destination",
 "Saving a texture or image to a file, a stream or memory produces identical bytes; if any write, open or flush fails at any point, the call reports a failure and never success. A save that is refused because the texture is incomplete, unconverted, of unknown file type or unsupported writes nothing and leaves an existing destination file untouched.",
 ["fault_sequences","inputs"],"all textures, images and file types; all positions at which the destination starts failing",
 "Tests save to healthy destinations or to a path that cannot be opened; a destination that fails part-way (full disk, broken stream) or a refused save over an existing file is never exercised.",
 [TEX,DDS,KTX,PVR,IMG,"lib/src/Shared.h"],[("stream error checks","SaveDds/SaveKtx/SavePvr write paths"),("destination opening","Texture::save, Image::save")],["SaveResult / bool results","bytes that reached the destination"])
p("C11","Images load faithfully from every source and survive lossless round trips",
 "Loading the same encoded image from a file, from memory or from a stream gives the same format, size, pixels and colour space, or fails in all of them, regardless of how the stream delivers its data; failed loads leave the image invalid. Palette, bilevel, grayscale and transparent images load with the colours their file stands for, in a format able to hold them. Saving an image to a lossless file type able to hold its pixel format and loading it back gives the same pixels.",
 ["inputs","fault_sequences"],"all image file types, sizes and pixel formats, all stream chunkings and truncations",
 "Tests load one or two PNG files from each source; other codecs, small files, stream edge conditions and round trips across formats are not covered.",
 [IMG,"lib/src/Shared.cpp"],[("FreeImage stream callbacks","readIStream/seekIStream/tellIStream/writeOStream"),("format classification of loaded bitmaps","Image::Impl::create")],["Image::load/save results and pixels"])
p("C12","Pixel reads and writes are exact, bounded and local",
 "Writing a colour to a pixel and reading it back gives the colour quantised to the nearest value of the pixel format and clamped to its range, as seen equally through pixel access and through the raw scanline bits interpreted with the advertised channel masks, shifts and depth. No other pixel changes, coordinates outside the image are refused with no effect, and writing with grayscale conversion stores the Rec. 709 luminance in the image's colour space handling.",
 ["inputs","histories"],"all pixel formats, sizes, coordinates and colour values, sequences of writes",
 "Tests write one colour per format at a single position; range limits of the integer formats, neighbours, masks/shifts of each format and repeated writes are not sampled.",
 [IMG],[("pixel accessors","Image::getPixel/setPixel, setPixelImpl"),("channel masks","Image::redMask..alphaShift")],["getPixel values, raw scanlines"])
p("C13","Image format conversion preserves values up to the target's precision",
 "Converting an image between any two pixel formats keeps size and colour space, and every pixel of the result equals the source pixel to within one quantisation step of the less precise of the two formats: missing alpha becomes opaque, colour becomes Rec. 709 luminance for single-channel targets, and single-channel sources spread to all colour channels. Single-channel 8-bit images convert to the integer formats by code value, conversion to a format at least as precise and back is lossless, converting to the same format changes nothing, and the source image is never modified.",
 ["inputs","configurations"],"all ordered pairs of pixel formats, sizes and pixel contents",
 "Tests convert one image along a few format pairs and compare a few pixels; the 17x17 pair matrix with boundary values is never covered.",
 [IMG],[("conversion","Image::convert")],["pixels of the converted image"])
p("C14","Rotations and flips are exact pixel permutations",
 "Rotating by a multiple of 90 degrees or flipping an image of any format and size moves every pixel to its documented place unchanged and only swaps width and height where required. Transformations compose as the symmetry group of the rectangle: four quarter turns, two half turns or two equal flips restore the original exactly, and a rotation always equals the corresponding combination of the others.",
 ["inputs","configurations"],"all formats, sizes and contents, all compositions of rotations and flips",
 "Tests check corner pixels of one image size in some formats; other sizes (1-pixel wide, odd), other formats and compositions are not reached.",
 [IMG],[("transforms","Image::rotate, flipHorizontal, flipVertical")],["pixels after transformation"])
p("C15","Resizing is faithful: exact sizes, no invented values, linear-light filtering",
 "Resizing yields exactly the requested size and the same format and colour space; a uniform image stays uniform, results of box and linear filters never leave the range of the source channel, channels do not influence each other, and box and linear resizing commutes with flipping up to rounding wherever no sample falls exactly on a filter edge. Resizing to the same size preserves pixels, shrinking by an integer factor with the box filter averages each block, and sRGB images are filtered in linear light; every named filter yields the normalised weighted average that its kernel defines, consistently across pixel formats up to their precision and without clamping floating-point values.",
 ["inputs","configurations"],"all formats, colour spaces, filters, source and target sizes, contents",
 "Tests resize one image to one size per filter and compare few values; properties over all size ratios, formats and contents are not checked.",
 [IMG],[("resampling","Image::resize"),("fallback filters","Image.cpp box/linear resize for integer, double and complex")],["pixels after resize"])
p("C16","Colour operations match their per-pixel linear-light definitions",
 "Colour-space changes apply the sRGB transfer function to the colour channels only, never to alpha, and round-trip within the pixel format's precision; grayscale conversion stores the Rec. 709 luminance computed in linear light and is idempotent up to the pixel format's precision; alpha pre-multiplication scales linear-light colour by alpha; swizzling moves channels exactly as named, with an unused channel becoming zero for colours and one for alpha. Every pixel is affected exactly once and independently of its position, and nothing else changes.",
 ["inputs","configurations"],"all formats, colour spaces, swizzles, sizes and contents",
 "Tests check a few pixels in a few formats; all swizzle combinations, format/colour-space pairs and boundary values are not covered.",
 [IMG,"lib/include/cuttlefish/Color.h"],[("colour operations","Image::changeColorSpace, grayscale, preMultiplyAlpha, swizzle"),("transfer functions","Color.h sRGBToLinear/linearToSRGB")],["pixels after the operation"])
p("C17","Normal maps are unit vectors following the height field",
 "Every pixel of a generated normal map is the normalised surface normal of the red-channel height field by central differences scaled by the height factor, mapped from [-1,1] to [0,1] unless the sign is kept, within the precision of the destination format. Wrapping along an axis makes the result translation-invariant along that axis, flat height fields give exactly the +Z normal, and without wrapping edges use the available neighbours only. The result has the size and colour space of the source.",
 ["inputs","configurations"],"all source formats, sizes, height values, option combinations and destination formats",
 "Tests compute normals for one small image per option and check a few pixels.",
 [IMG],[("normal generation","Image::createNormalMap")],["pixels of the normal map"])
p("C18","Generated mip chains are complete, correctly sized and filtered level by level",
 "Mip generation produces the requested number of levels (clamped to the maximum), each with dimensions halved and at least one, for every face, array element and depth slice independently; each level equals the resize of the level it derives from. A custom image replaces exactly its own level, face and slice, resized to fit and brought to the texture's colour space; later levels continue from it or return to the previous source as requested, and no other face or slice is affected.",
 ["inputs","configurations","histories"],"all dimensions, sizes, array lengths, filters, level counts and custom-image placements",
 "Tests generate one chain per dimension and one custom image at a time; combinations of custom levels across faces, slices and replacement modes are never sampled.",
 [TEX],[("mip generation","Texture::generateMipmaps")],["Texture::getImage for every level/face/slice"])
p("C19","The texture lifecycle is consistent, and failed calls change nothing",
 "Over any history of operations the answers of a texture (validity, dimensions per level, face, level and array counts, completeness, converted state, format, available images and data) are exactly those of a simple model: images are available until conversion, data only after it, data sizes follow dimensions and format, and reset or re-initialisation returns to the empty state. An operation that reports failure leaves the texture observably unchanged and still usable.",
 ["histories","inputs"],"all sequences of texture operations with valid and invalid arguments",
 "Tests run fixed short sequences with one failure each; histories with failures followed by further operations are not explored.",
 [TEX],[("texture state","Texture::initialize/setImage/generateMipmaps/convert/reset")],["all const accessors after each step"],False,[("texture implementation","images before conversion, encoded data after it")])
p("C20","Copies are independent and moves transfer the whole value",
 "Copying an image, texture or custom mip image by construction or assignment yields a value equal in every observable respect, and later changes to either do not affect the other. Moving transfers that value completely and leaves the source empty but usable, and self-assignment or assignment over a non-empty object changes nothing else and leaks nothing.",
 ["histories","inputs"],"all sequences of copy, move and assign among live, empty and moved-from objects mixed with mutations",
 "Tests copy and move each class once and compare a few fields, missing fields that happen to be equal and aliasing under later mutation.",
 [IMG,TEX],[("copy/move members","Image, Texture, Texture::CustomMipImage special members")],["observable state of both objects"])
p("C21","Automatic value-range adjustment maps whole ranges exactly",
 "Adjusting an image for a signed-normalised target maps each normalised colour value v of a normalised source to 2v-1, and for an integer target scales it to the source format's full integer range, in every channel the source has, on every pixel. Sources that are not normalised and targets that need no adjustment leave the image unchanged.",
 ["inputs","configurations"],"all image formats, original formats, target types, sizes and contents",
 "Tests check one pixel for some format/type pairs.",
 [TEX],[("range adjustment","Texture::adjustImageValueRange")],["pixels after adjustment"])
p("C22","The command-line tool writes what its documented pipeline defines",
 "For every accepted combination of options, exit status 0 means the output file is exactly the texture obtained by applying the documented operations in the documented order (load, colour space, resize, rotate, grayscale, normal map, flip, swizzle, pre-multiply, value range, mipmaps, conversion, container) to the inputs. The order of options on the command line, short or long spellings, verbosity and number of jobs do not change the output.",
 ["inputs","configurations","schedules"],"all accepted option combinations and input images",
 "The tool tests check only exit codes with output to the null device; the bytes written are never examined.",
 [MAIN,CL,"tool/README.md"],[("pipeline","tool/main.cpp loadAndProcessImage/saveTexture"),("option parsing","tool/CommandLine.cpp parse")],["exit status and output file bytes"])
p("C23","The command-line tool rejects bad input cleanly and without side effects",
 "Any argument list, list file or image file whatsoever makes the tool terminate normally with its documented exit status: non-zero with a message on standard error when the request is malformed, an input cannot be read, or the output cannot be written, and zero only when the output file was completely written. A rejected request neither creates nor modifies the output file or any other file or directory.",
 ["inputs","fault_sequences"],"all argument vectors and list-file contents, all failing inputs and outputs",
 "The tests try a few fixed malformed command lines and look only at the exit code.",
 [CL,MAIN],[("argument validation","CommandLine::parse, validate"),("error paths","tool/main.cpp")],["exit status, stderr, sandbox directory contents"])
p("C24","Array, cube and mip inputs land where the command line places them",
 "Each input image given by index, face, list file or custom-mip option ends up in exactly the array element, cube face, depth slice and mip level it names, whatever the order in which inputs are given. Equivalent ways of giving the same inputs (individual options, implicit or explicit indices, list files with any line endings) produce identical output files.",
 ["inputs","configurations"],"all texture kinds, numbers of images, orders of inputs and equivalent spellings",
 "Tests give inputs in one order and check the exit code only.",
 [CL,MAIN],[("input assembly","CommandLine.cpp -a/-c/-C/-I/-M parsing; main.cpp setImage loop")],["output file surfaces"])
p("C25","Output is a pure function of the inputs, with no uninitialised bytes",
 "The bytes of every converted surface and saved file are determined by the inputs alone: repeating the same operations in another process, at another point of a process's life, or over differently filled memory gives identical bytes. No byte of the output derives from uninitialised memory, padding included.",
 ["inputs","histories","configurations"],"all textures, formats and container types; all prior process states",
 "A test run sees one process with mostly zeroed memory, where stale or uninitialised bytes happen to look right.",
 [KTX,DDS,PVR,STD,IMG,TEX],[("header construction","SaveKtx/SaveDds/SavePvr"),("output buffers","Converter data()")],["output bytes under varied heap/stack fill; memcheck reports"])
p("C26","Compressed textures hand encoders every block and file what comes back",
 "For every block-compressed format (S3TC, ETC/EAC, ASTC, PVRTC) and any texture, quality, alpha type and colour mask, converting encodes each block of each surface exactly once from the texture's own pixels - rounded and clamped as the encoder requires, with blocks past the right and bottom edges filled from the surface's own pixels or marked partial - with options that follow the requested format, type, quality, alpha and mask; each encoded block ends up in its row-major place in the surface's data, whatever the number of threads; and saved files describe and contain exactly those blocks.",
 ["inputs","configurations","schedules"],"all images, compressed formats, types, qualities, alpha types, colour masks, thread counts and containers",
 "The tests of compressed formats check the sizes of the output only, for one image per format.",
 ["lib/src/S3tcConverter.cpp","lib/src/EtcConverter.cpp","lib/src/AstcConverter.cpp","lib/src/PvrtcConverter.cpp",KTX,DDS,PVR],[("block assembly","S3tc/Etc/Astc/PvrtcConverter::process"),("container formats","SaveDds/SaveKtx/SavePvr")],["pixels and options passed to each encoder; Texture::data; saved bytes"])
p("C27","Images and textures can be used from different threads at once",
 "Threads that work on images and textures of their own - creating, loading, converting, resizing and saving them to files, streams and memory, with any function of the library, including the first calls of the process - each get exactly the results they get when they run alone, without data races. The same holds for threads that only read a shared image, texture, set of custom mip images or encoded buffer through const functions, and for objects handed from thread to thread with synchronisation of their own.",
 ["schedules","histories","inputs"],"all sequences of operations in all threads, all interleavings, all formats and files",
 "The tests run everything in one thread.",
 [IMG,TEX,CONV,STD,"lib/src/S3tcConverter.cpp","lib/src/AstcConverter.cpp",KTX,DDS,PVR],[("file type lookup and encoders","Image::save"),("one-time initialisation of FreeImage","Image.cpp freeImageInitialize"),("context cache","AstcConverter")],
 ["every result in each thread; ThreadSanitizer reports"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
import re
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
    print(x["id"], len(x["title"]))
