NOTES = "All checks live in one explorer crate (mc/); see DESIGN.md. No hooks in /repo are needed."
NOT_APPLICABLE = []
PROPS = []
def P(id, title, statement, over, quant, why, files, mech, technique, level, note, observe=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                      mech=mech, technique=technique, level=level, note=note, observe=list(observe)))
EX = "exploration"; FE = "fault_enumeration"; MC = "model_checking"

P("C01", "Lossless JPEG compression is reversible and standard-conforming",
  "For every image of 2 to 16 bit samples, every component count from 1 to 4, every predictor 1 to 7 and every image shape the compressor accepts, the compressed stream is a valid ITU-T T.81 lossless JPEG stream whose decoded samples equal the input exactly. The library's own decompressor recovers the same samples from it.",
  ["inputs"], "all sample values/differences at small sizes, all shapes/components/precisions/predictors in the bounds",
  "The unit tests compress a handful of fixed tiles with a few predictors; reversibility must hold for every sample value, prediction difference, histogram shape and width.",
  ["rawler/src/ljpeg92.rs", "rawler/src/decompressors/ljpeg/mod.rs"],
  [("predictor + Huffman table construction of the encoder", "rawler/src/ljpeg92.rs"), ("decoder predictors", "rawler/src/decompressors/ljpeg/decompressors.rs")],
  "bounded exhaustive enumeration of images against an independent T.81 decoder", EX,
  "Every image of the enumerated families (all value pairs for small precisions, all difference categories, all shapes) is encoded by the real code and decoded by an independently written strict T.81 decoder and by the real decoder. Trusts the reference decoder (cross-checked against the reference encoder).")

P("C02", "Lossless JPEG decoding follows the standard for any valid Huffman tables",
  "Any conforming single-scan lossless JPEG stream without restart intervals, subsampling or point transform (2 to 16 bits, 1 to 4 components, predictors 1 to 7, any valid Huffman tables, shared or per component) decodes to exactly the samples it encodes, whatever code lengths and difference categories occur.",
  ["inputs"], "all difference categories x code lengths x predictors x components x shapes in the bounds",
  "Existing tests decode only streams found in the repository; other encoders choose other tables and code lengths up to 16 bits.",
  ["rawler/src/decompressors/ljpeg/mod.rs", "rawler/src/decompressors/ljpeg/huffman.rs", "rawler/src/decompressors/ljpeg/decompressors.rs", "rawler/src/pumps.rs"],
  [("Huffman table construction and fast lookup", "rawler/src/decompressors/ljpeg/huffman.rs"), ("predictor implementations", "rawler/src/decompressors/ljpeg/decompressors.rs")],
  "bounded exhaustive enumeration of streams from an independent T.81 encoder", EX,
  "Streams are produced by an independent encoder with enumerated tables; the real decoder's samples are compared with the source samples. Trusts the reference encoder (cross-checked with the reference decoder).")

P("C03", "DNG output keeps every raw sample, for any size, layout and compression",
  "Every sample of a raw image written to a DNG (uncompressed or lossless, any predictor, any crop mode, filter-array, monochrome or multi-plane linear data, 2 to 16 bit integers or uncompressed floats) is stored unchanged at its own position: an independent DNG reader and the library's own decoder both get the identical full-size image back. Converting a DNG to DNG again, any number of times and through any mix of compressions, changes no sample.",
  ["inputs", "histories"], "all widths/heights in the bounds x photometric kinds x bit depths x compressions x predictors x crop modes, plus conversion chains",
  "The tests need external sample files or check only empty DNGs; edge tiles, odd widths and strip remainders are input dependent.",
  ["rawler/src/dng/writer.rs", "rawler/src/dng/convert.rs", "rawler/src/tiles.rs", "rawler/src/decoders/dng.rs", "rawler/src/decoders/mod.rs"],
  [("tiling and lossless tile compression", "rawler/src/dng/writer.rs"), ("strip writing", "rawler/src/dng/writer.rs"), ("tile/strip decoding", "rawler/src/decoders/mod.rs")],
  "bounded exhaustive enumeration of images and conversion chains against an independent DNG reader", EX,
  "Real writer and real DNG-to-DNG conversion are executed for every enumerated case; the result is read by an independent TIFF/DNG/LJPEG reader and by the real decoder. Input images have pseudo-random content with a fixed seed.")

P("C04", "DNG metadata describes the same sensor: areas, CFA, levels, WB, matrices",
  "Whatever the active area, crop, filter pattern (2x2 or 6x6, RGB), black-level repeat pattern, white levels, white balance, orientation and colour matrices (up to two) of a raw image are, the written DNG describes for every sensor position the same filter colour, black and white level, and the same areas, white balance, orientation and matrices; reading it back gives the same description. Converting DNG to DNG repeatedly does not make the description drift.",
  ["inputs", "histories"], "all active-area origins, crops, patterns, level patterns in the bounds, conversion chains",
  "The relation between active-area origin and pattern phase depends on parity of user-supplied geometry; no test round-trips it.",
  ["rawler/src/dng/writer.rs", "rawler/src/decoders/dng.rs", "rawler/src/cfa.rs", "rawler/src/rawimage.rs"],
  [("pattern and level shifting by the active area origin", "rawler/src/dng/writer.rs"), ("inverse shifting when reading", "rawler/src/decoders/dng.rs")],
  "bounded exhaustive enumeration of geometry descriptions against an independent DNG reader", EX,
  "Real writer/converter executed on every enumerated description; independent reader evaluates colour and level per sensor position. White balance tolerance 1e-5, matrices 2e-4 (rational storage).")

P("C05", "Embedded original raw file is restored bit-exactly; corruption is detected",
  "Whatever the bytes, length and stream behaviour of a raw file, embedding it in a DNG stores it in the DNG OriginalRawFileData structure with its MD5 digest, and restoring it yields exactly the same bytes and name. A damaged stored copy, block table or digest (or a missing digest) is never reported as successfully restored while verification is enabled, and a read error while embedding is never swallowed.",
  ["inputs", "fault_sequences"], "all lengths around block boundaries x content classes x short-read patterns; every bit flip, truncation and digest change of stored originals; every read-call fault",
  "Two unit tests round-trip 0 and 5 bytes; block boundaries, short reads, corruption and I/O errors need enumeration.",
  ["rawler/src/dng/original.rs", "rawler/src/dng/convert.rs", "rawler/src/dng/writer.rs"],
  [("block splitting, compression and digest", "rawler/src/dng/original.rs"), ("embedding during conversion", "rawler/src/dng/convert.rs")],
  "bounded exhaustive enumeration of inputs, stream behaviours and corruptions with an independent reader", EX,
  "Real compress/serialise/restore executed on every case; stored structure read by an independent inflate + MD5. Thorough: lengths to 4096 and 6 blocks.")

P("C11", "No command damages or silently replaces an existing file",
  "convert, process-raw, extract and makedng never modify or remove an input file, a file reachable through a link at the output path, or any other existing file except the exact output path, and that one only with --override. Without --override an existing output is left untouched and the run reports failure, even if another process creates it at any moment during the run; of two simultaneous runs without --override on one output exactly one succeeds. An output that would replace an input of the same run is refused.",
  ["inputs", "schedules", "configurations"], "all target kinds x modes x options x input defects; a competitor at every file-system operation; every single-preemption interleaving of two runs",
  "Clobbering depends on what exists at the output path and on other processes acting between two system calls; no test runs the binary with existing targets or concurrently.",
  ["bin/dnglab/dnglab-lib/src/jobs/raw2dng.rs", "bin/dnglab/dnglab-lib/src/jobs/mod.rs", "bin/dnglab/dnglab-lib/src/convert.rs", "bin/dnglab/dnglab-lib/src/process_raw.rs", "bin/dnglab/dnglab-lib/src/extract.rs", "bin/dnglab/dnglab-lib/src/makedng.rs"],
  [("exclusive creation of the output", "bin/dnglab/dnglab-lib/src/jobs/raw2dng.rs"), ("override handling", "bin/dnglab/dnglab-lib/src/convert.rs")],
  "exhaustive enumeration of start states and of interference points at every file-system call of the real binary", EX,
  "The real binary runs in scratch directories; complete before/after snapshots are compared. Interference is injected before every file-system call through an interposed library. Excluded: two --override runs on one target with a failing one.")

P("C12", "Batch runs give every input its own complete output",
  "Converting or developing a directory (recursively or not, with any number of parallel jobs) produces for every readable raw file exactly one output holding that file's own image, in the mirrored sub-directory, named after the input stem (with a numeric suffix only when stems collide). A file that fails, panics or cannot be accessed never prevents the other outputs, nothing else is written, and the exit status is 0 only if every input succeeded.",
  ["inputs", "configurations"], "all subsets (bounded size) of an adversarial set of directory entries x options",
  "Which outputs collide depends on the combination of names present; the tests contain no directory runs.",
  ["bin/dnglab/dnglab-lib/src/convert.rs", "bin/dnglab/dnglab-lib/src/process_raw.rs", "bin/dnglab/dnglab-lib/src/filemap.rs"],
  [("disambiguation of output names", "bin/dnglab/dnglab-lib/src/convert.rs"), ("directory walk and mapping", "bin/dnglab/dnglab-lib/src/filemap.rs")],
  "exhaustive enumeration of directory contents up to a size bound, run on the real binary", EX,
  "Outputs are identified by pixel content, so the oracle does not depend on the order in which names are assigned. Thorough: all subsets up to size 5 of 15 entries.")

P("C13", "Exit status 0 means a complete output; faults never leave a damaged one",
  "Whatever file-system error, short write or decoder failure occurs at whatever point of convert, process-raw, extract or makedng: exit status 0 implies that every output is complete and correct; a failing run leaves no incomplete output, keeps inputs and other files intact and does not take other files of a batch down. After a crash at any point inputs are intact, a rerun never reports success over a torn output, and a rerun with --override restores the complete result. Library conversion and development report every error of the output stream and tolerate short and interrupted writes.",
  ["fault_sequences", "crash_points"], "every file-system operation x every fault kind; every stream call x every fault kind",
  "Needs faults at specific operations; no test injects any.",
  ["bin/dnglab/dnglab-lib/src/jobs/raw2dng.rs", "bin/dnglab/dnglab-lib/src/jobs/process_raw.rs", "bin/dnglab/dnglab-lib/src/jobs/extractraw.rs", "bin/dnglab/dnglab-lib/src/makedng.rs", "rawler/src/dng/convert.rs", "rawler/src/dng/writer.rs", "rawler/src/formats/tiff/writer.rs"],
  [("clean-up after failure", "bin/dnglab/dnglab-lib/src/jobs/raw2dng.rs"), ("error propagation of the writers", "rawler/src/formats/tiff/writer.rs")],
  "exhaustive fault and crash-point enumeration on the real binary and on the real library writers", FE,
  "Every operation of the fault-free run is faulted once with each fault kind. Power-loss reordering is not modelled.")

P("C14", "Restoring embedded originals is exact, contained and never half done",
  "`dnglab extract` restores an embedded original under its stored name byte for byte, wherever in an output directory tree it belongs, and never creates or changes anything outside the requested output location whatever name is stored in the DNG. A stored copy or digest that is damaged, missing or of the wrong type leads to a failure without any output; with --skipchecks only the digest comparison is dropped. A directory run restores every suitable file, reports the unsuitable ones, and leaves everything else untouched.",
  ["inputs", "configurations"], "all stored names in an adversarial list x output forms; every bit flip of the stored structure and digest; all subsets of batch entries x options",
  "The name and the block structure come from an untrusted file; no test runs extract on anything but a well-formed file.",
  ["bin/dnglab/dnglab-lib/src/extract.rs", "bin/dnglab/dnglab-lib/src/jobs/extractraw.rs", "rawler/src/dng/original.rs"],
  [("use of the stored name", "bin/dnglab/dnglab-lib/src/extract.rs"), ("extraction job", "bin/dnglab/dnglab-lib/src/jobs/extractraw.rs")],
  "exhaustive enumeration of stored names, corruptions and directory contents on the real binary", EX,
  "Complete before/after snapshots of a scratch tree containing the places hostile names point to. Corruption oracle: an independent reader of the structure.")

P("C16", "makedng keeps its input pixels and describes them exactly as asked",
  "`dnglab makedng` stores the pixels of the image chosen as raw unchanged at full size, the chosen preview and thumbnail images come from the inputs mapped to them, and every option (levels, matrices, illuminants, white balance, linearization, DNG version, camera strings, colour-model options, EXIF and XMP sources) ends up in the output with exactly the given or documented value; options not given get their documented default. Invalid combinations fail without leaving an output.",
  ["inputs", "configurations"], "all image sizes in the bounds x depths; every named/custom table, matrix, illuminant, version; all assignments of inputs to roles",
  "Each option interacts with bit depth and input kind; there are no tests of makedng output.",
  ["bin/dnglab/dnglab-lib/src/makedng.rs", "rawler/src/dng/writer.rs", "rawler/src/decoders/dng.rs"],
  [("option to tag mapping", "bin/dnglab/dnglab-lib/src/makedng.rs"), ("image writers", "rawler/src/dng/writer.rs")],
  "exhaustive enumeration of inputs and option values on the real binary against an independent DNG reader", EX,
  "Independent PNG writer and DNG reader; rational options compared with resolution 1e-4.")

P("C09", "Every storage form of raw samples is unpacked to exactly the stored values",
  "Unpacking raw samples returns the values that were stored: integers packed with 1 to 16 bits in either byte order at any width and height and through every row and strip interface, the vendor sample layouts at their legal widths, floating point samples of 16, 24 and 32 bits including subnormal, infinite and NaN values, deflate-compressed images with every predictor, interleaved rows and columns, and samples mapped through a linearization table. A buffer too short for the declared size is an error or zero-fill, never a panic or an out-of-bounds access.",
  ["inputs"], "all widths/heights in the bounds x bit depths x byte orders x interfaces x boundary contents; all 2^16 half and 2^24 24 bit floats",
  "Errors show only at particular widths, depths or bit patterns; existing tests cover a handful of widths.",
  ["rawler/src/decompressors/packed.rs", "rawler/src/bits.rs", "rawler/src/decompressors/deflate.rs", "rawler/src/decoders/mod.rs"],
  [("packed sample readers", "rawler/src/decompressors/packed.rs"), ("floating point and predictor decoding", "rawler/src/decompressors/deflate.rs"), ("linearization", "rawler/src/pixarray.rs")],
  "bounded exhaustive enumeration of stored images on the real unpackers against an independent packer", EX,
  "Vendor layouts only at widths which are multiples of their sample group; linearization dither allowed within a quarter of the distance of neighbouring table entries.")

P("C06", "TIFF structures round-trip bit for bit and reading is independent of layout",
  "A TIFF structure written by the library - any tag, field type, count and value, directories nested to any depth, data blocks of any size, entries added, replaced, removed or copied in any order - reads back with exactly the same tags, types, counts and values, as a well-formed file in which no two regions overlap. Reading a TIFF structure gives the same result in either byte order, wherever values lie in the file, at any embedding offset or offset correction, for chained and nested directories; the typed accessors return the numerically correct element.",
  ["inputs", "histories"], "all types x counts x boundary values; all operation sequences up to the bound; all layouts of the independent builder",
  "Every output file and all metadata go through this layer; existing tests write two small directories.",
  ["rawler/src/formats/tiff/writer.rs", "rawler/src/formats/tiff/value.rs", "rawler/src/formats/tiff/reader.rs", "rawler/src/formats/tiff/ifd.rs", "rawler/src/formats/tiff/entry.rs"],
  [("writing of entries and data", "rawler/src/formats/tiff/writer.rs"), ("parsing of entries", "rawler/src/formats/tiff/entry.rs"), ("typed accessors", "rawler/src/formats/tiff/value.rs")],
  "bounded exhaustive enumeration of structures and writer operation sequences against an independent TIFF parser and builder", EX,
  "Operation sequences are compared with a map model of the directory; bytes are parsed by an independent strict parser which also checks that regions do not overlap.")

P("C07", "Malformed files fail or read partially, within bounded time and memory",
  "Whatever bytes a TIFF/DNG, CR3 (ISO media) or JPEG/EXIF file contains - any damaged byte, entry field, directory pointer, box size, count or segment length, any truncation - parsing it terminates promptly without a crash and without requesting memory out of proportion to the file. Directories and entries of a TIFF that are still intact are returned with their exact values although others are damaged, chained directories stay reachable, and cyclic chains end. Decoding and converting a damaged raw file of any supported family ends with an error or an image, never with a hang, a process abort or runaway memory.",
  ["inputs"], "every single-byte change, every truncation, every entry/pointer/box/segment field at boundary values, pairs of structure fields, on well-formed base files of each container",
  "A single bad file must not take a batch or the FTP server down; no test feeds damaged structures.",
  ["rawler/src/formats/tiff/ifd.rs", "rawler/src/formats/tiff/entry.rs", "rawler/src/formats/tiff/reader.rs", "rawler/src/formats/bmff/mod.rs", "rawler/src/formats/jfif.rs", "rawler/src/decoders/mod.rs"],
  [("directory and entry parsing", "rawler/src/formats/tiff/ifd.rs"), ("box parsing", "rawler/src/formats/bmff/mod.rs"), ("segment parsing", "rawler/src/formats/jfif.rs"), ("decoder entry", "rawler/src/decoders/mod.rs")],
  "exhaustive enumeration of single (and paired) structural damages with a lenient reference reader, allocation accounting and a watchdog", EX,
  "Memory is measured by a counting allocator in the harness (per parsing thread); images which declare more than 4 million samples are exempt in the pipeline part.")

P("C10", "CR3 and JPEG containers are read faithfully in every legal form",
  "Reading a well-formed ISO media file (CR3) gives the same content whatever legal form it takes: 64 bit box sizes, a last box that extends to the end of the file, unknown boxes at any place, boxes in any order. Every field has the stored value, every box its true position and size, and the position and size of every sample follow from the sample tables for any chunk layout. Reading a JPEG file reports every segment with its exact kind, position and content in order, with thumbnails and fill bytes of any kind, and finds the first EXIF and XMP block.",
  ["inputs"], "all sample tables, box forms, orders and foreign boxes within the bounds; every field x boundary values; all segment sequences up to the bound",
  "Cameras and other tools write these containers in different ways; no unit test builds one.",
  ["rawler/src/formats/bmff/mod.rs", "rawler/src/formats/bmff/stbl.rs", "rawler/src/formats/bmff/stsc.rs", "rawler/src/formats/bmff/ext_cr3/mod.rs", "rawler/src/formats/jfif.rs"],
  [("box headers and views", "rawler/src/formats/bmff/mod.rs"), ("sample position", "rawler/src/formats/bmff/stbl.rs"), ("segment parsing", "rawler/src/formats/jfif.rs")],
  "exhaustive enumeration of container forms from an independent builder, compared field by field", EX,
  "Metamorphic oracle for the box forms, direct oracle for fields, samples and segments. Movie (CRM) boxes beyond CMP1 are not covered.")

P("C20", "The FTP server grants access only after correct credentials",
  "An FTP session can list, read, write, create, delete or open data connections only after USER and PASS with the name and password of a configured user, after USER with a configured user without password, or - if anonymous access is enabled - as user anonymous. No sequence of commands, names or passwords gives access otherwise, and correct credentials always do. A session which is not logged in gets an error for every such command and changes nothing.",
  ["histories", "configurations"], "all login command sequences up to the bound x server configurations",
  "Login state is spread over two flags and changes with every USER and PASS; no test opens a session.",
  ["embedftp/src/client.rs", "embedftp/src/config.rs"],
  [("login state and password check", "embedftp/src/client.rs")],
  "explicit-state model of the login state, all its command sequences up to a bound executed on the real server", MC,
  "The server runs unprivileged in a scratch tree; every session is probed with all protected commands and the tree is compared.")

P("C21", "FTP commands act exactly on the served tree and never outside of it",
  "CWD, CDUP, PWD, MKD, RMD, DELE, RETR, STOR, LIST and NLST have exactly their effect on the served directory tree, relative to the session's working directory, and report success exactly if it took place. Whatever path they are given - absolute, with parent components, through symbolic links - nothing outside the served directory is read, listed, created, changed or removed, the served directory itself is never removed, and it does not matter how the served directory was named at start.",
  ["histories"], "every command in every state reachable by the commands up to the bound, on a tree with links inside, outside and nowhere",
  "A path that escapes or an operation on the wrong file shows only for particular combinations of working directory, links and arguments.",
  ["embedftp/src/client.rs", "embedftp/src/server.rs"],
  [("path resolution", "embedftp/src/client.rs"), ("served directory", "embedftp/src/server.rs")],
  "explicit-state breadth-first exploration of a file-tree model; every transition replayed on the real server and compared with the complete tree", MC,
  "RMD and DELE of a link act on the link's target (as the code does); NLST with other patterns than * may list any names of the tree.")

P("C22", "Every FTP command gets exactly one final reply, in order, and none after QUIT",
  "Whatever a client sends, each command line - known, unknown, malformed, not UTF-8, with missing or bad arguments, in any session and data connection state - is answered by exactly one well-formed final reply of the right class (transfers: at most one preliminary reply before it), in order, and the session stays usable; after QUIT the connection closes and nothing more is executed. How the bytes are split into packets or pipelined makes no difference.",
  ["inputs", "histories", "schedules"], "all byte strings up to the bound in all chunkings; all command sequences up to the bound in every framing",
  "Clients lose step with the server after one missing or surplus reply; tests decode three complete commands.",
  ["embedftp/src/client.rs", "embedftp/src/codec.rs", "embedftp/src/command.rs", "embedftp/src/ftp.rs"],
  [("framing and encoding", "embedftp/src/codec.rs"), ("argument parsing", "embedftp/src/command.rs"), ("replies of all handlers", "embedftp/src/client.rs")],
  "exhaustive enumeration of byte strings, chunkings and command sequences on the real codec and server", MC,
  "Line-by-line, pipelined and byte-wise execution must agree; reply syntax by an independent RFC 959 parser. The client always connects to announced passive ports.")

P("C23", "FTP transfers are exact and sessions do not disturb each other",
  "A file uploaded with STOR is stored with exactly the bytes sent, replacing earlier content, and RETR returns exactly the stored bytes, for any size and content, in passive, extended passive and active mode and for both transfer types. An upload that breaks off changes nothing. Each session has its own working directory; commands of several sessions take effect one after another on the shared tree, also while a transfer is running, and a broken or slow transfer does not block or end any session.",
  ["inputs", "schedules", "fault_sequences"], "all sizes in the bounds; all packet cuts; resets at every offset; all interleavings of two sessions' scripts; every command at every point of a running transfer",
  "Cameras send large files over unreliable links while others work; no test transfers anything.",
  ["embedftp/src/client.rs", "embedftp/src/server.rs"],
  [("data connections and transfers", "embedftp/src/client.rs"), ("one task per session", "embedftp/src/server.rs")],
  "exhaustive enumeration of sizes, packet cuts, connection resets and session interleavings on the real server against a shared-tree model", MC,
  "Interleavings are controlled at command and packet granularity; the scheduling inside the server's runtime is not controlled.")

P("C24", "The FTP conversion server makes the same DNG as convert and loses nothing",
  "`dnglab ftpserver` turns an uploaded file with a raw file extension into <name>.dng next to it, with exactly the content `dnglab convert` produces with the same options; the original is kept exactly if asked. Files with other extensions are stored unchanged. An upload that cannot be converted is answered with an error and changes nothing: no partial DNG, no loss of an existing file. Nothing is ever written outside the served directory.",
  ["inputs", "histories", "configurations"], "option sets x file names x contents x previous states; all upload sequences up to the bound; all interleavings of two uploads",
  "The conversion callback is the only consumer of in-memory sources and is not tested at all.",
  ["bin/dnglab/dnglab-lib/src/ftpconv.rs", "embedftp/src/client.rs", "rawler/src/dng/convert.rs"],
  [("conversion callback", "bin/dnglab/dnglab-lib/src/ftpconv.rs"), ("upload handling", "embedftp/src/client.rs")],
  "exhaustive enumeration of upload sequences on the real binary against a model with `dnglab convert` as reference", MC,
  "ModifyDate is masked. An upload replaces existing files even without --override (FTP semantics).")

P("C08", "Compressed and packed vendor sample formats decode to the stored samples",
  "Every bit reader delivers exactly the bits stored, in its documented order, for any sequence of reads, peeks and skips and up to the last bit of the data. Decoding data in a vendor's compressed format - Sony ARW1, ARW2 and SRF, Olympus ORF, Samsung SRW 1 to 3, Panasonic, Kodak DC120 and 65000, Pentax PEF, Canon CRW, Nikon NEF and the small NEF form, and the plain packed forms - yields exactly the sample values the encoder stored, for every image size and content of the format, in every row.",
  ["inputs"], "all bit read sequences in the bounds; per format all image sizes in the bounds x all boundary sample patterns x format parameters",
  "Predictors and code tables fail only for particular differences, lengths or carries; most decoders have no test at all.",
  ["rawler/src/pumps.rs", "rawler/src/decompressors", "rawler/src/decoders/unwrapped.rs", "rawler/src/decoders/nef.rs", "rawler/src/decoders/orf.rs", "rawler/src/decoders/arw.rs"],
  [("bit readers", "rawler/src/pumps.rs"), ("vendor decoders", "rawler/src/decoders/unwrapped.rs")],
  "bounded exhaustive enumeration of stored images through independent encoders against the real decoders; bit readers against a bit-list model", EX,
  "Each vendor format has an independently written encoder; formats are reached through the library's entry for unwrapped data.")

P("C15", "Complete Panasonic raw files decode to exactly the stored samples",
  "A Panasonic raw file - any of the sample formats 4 (with and without block rotation), 5, 6, 7 and 8 or the packed forms, 12 or 14 bits, any aspect mode, strips or blocks in any arrangement the format allows - decodes to exactly the samples the camera stored: every row and column, including the samples at block and strip seams, the last bits of the data, and values at the ends of the range.",
  ["inputs"], "per format all image sizes in the bounds x boundary sample patterns x strip grids, orders and gamma tables",
  "Errors at block seams or range ends touch few samples of a real photo; there are no unit tests for these paths.",
  ["rawler/src/decoders/rw2.rs", "rawler/src/decoders/rw2"],
  [("format selection", "rawler/src/decoders/rw2.rs"), ("format 4", "rawler/src/decoders/rw2/v4decompressor.rs"), ("format 8", "rawler/src/decoders/rw2/v8decompressor.rs")],
  "bounded exhaustive enumeration of complete files from independent encoders through the real decoder", EX,
  "Sizes are multiples of the format's sample group. Format 8 with CF2HufShiftDown other than 0 is not covered.")

P("C17", "Canon CRX images and CR3 files decode to exactly the stored samples",
  "Canon's CRX compressed images - lossless or with one to three wavelet levels, any plane size, any number of tile columns (tile rows in lossless images), every bit depth, both colour modes, quantised by parameters or by tables - decode to exactly the samples the stored coefficients stand for, including at tile borders, image edges, the longest runs and the largest codes. Every image of a CR3 file is found wherever its data lies.",
  ["inputs"], "all image sizes, tile grids, quantisation parameters and run lengths in the bounds x boundary patterns; all planes over a small alphabet up to the bound",
  "An error in one code state or at a tile border shows in few samples of particular photos; the decoder has no unit test.",
  ["rawler/src/decompressors/crx", "rawler/src/decoders/cr3.rs", "rawler/src/formats/bmff"],
  [("entropy decoder and tiles", "rawler/src/decompressors/crx/decoder.rs"), ("wavelet", "rawler/src/decompressors/crx/idwt.rs"), ("quantisation", "rawler/src/decompressors/crx/iquant.rs"), ("CR3 files", "rawler/src/decoders/cr3.rs")],
  "bounded exhaustive enumeration of coded images from an independent encoder; results against a whole-plane reference reconstruction", EX,
  "The rounded-bits mode and tile rows with wavelets are not covered; no known camera writes them.")

P("C25", "Canon CR2 and Sony ARW files decode to the stored samples and levels",
  "A complete Canon CR2 file (mosaics with any slices, line layouts and component counts, 4:2:2 and 4:2:0 sRAW images) or Sony ARW/SR2/SRF file (compressed, uncompressed, tiled mosaic and YCbCr, any byte order and directory placement) decodes to exactly the samples the camera stored, and to the black and white levels, the white balance, the colour pattern and the image areas recorded in the file's maker notes and colour records, for every known version of these records.",
  ["inputs"], "all image sizes, slice layouts, record versions, encryption keys, byte orders and directory placements in the bounds x boundary sample patterns",
  "Each form belongs to particular cameras; no unit test decodes a camera file.",
  ["rawler/src/decoders/cr2.rs", "rawler/src/decoders/arw.rs", "rawler/src/decompressors/ljpeg", "rawler/src/formats/tiff", "rawler/src/imgop/yuv.rs"],
  [("Canon files", "rawler/src/decoders/cr2.rs"), ("Sony files", "rawler/src/decoders/arw.rs")],
  "bounded exhaustive enumeration of complete files from an independent writer through the real decoders", EX,
  "Files are laid out as the cameras write them; colour matrices come from the camera database and are not compared.")

P("C26", "Camera files of the other vendors decode to the stored samples and levels",
  "A complete camera file in one of the covered forms - Nikon NEF/NRW (uncompressed, packed, compressed, strips, scanner), Olympus ORF (all packings, compressed, high resolution), Pentax PEF, Samsung SRW, Fujifilm RAF (uncompressed, all bit depths and packings, X-Trans, turned SuperCCD sensors), Minolta MRW, Kodak KDC/DCR/DCS, Hasselblad 3FR, Leaf MOS, Mamiya MEF, Epson ERF, ARRI ARI, any byte order and directory placement - decodes to exactly the samples the camera stored, and to the black and white levels, the white balance, the colour pattern and the image areas recorded in the file or listed for the camera and its mode.",
  ["inputs"], "all forms, cameras, image sizes, record versions, encryption keys, byte orders, block orders and directory placements in the bounds x boundary sample patterns",
  "Each form belongs to particular cameras; no unit test decodes a camera file.",
  ["rawler/src/decoders", "rawler/src/decompressors", "rawler/src/formats/tiff", "rawler/data/cameras"],
  [("Nikon", "rawler/src/decoders/nef.rs"), ("Olympus", "rawler/src/decoders/orf.rs"), ("Fujifilm", "rawler/src/decoders/raf.rs"), ("Pentax", "rawler/src/decoders/pef.rs"), ("Samsung", "rawler/src/decoders/srw.rs")],
  "bounded exhaustive enumeration of complete files from an independent writer through the real decoders", EX,
  "Files are laid out as the cameras write them; where the camera table lists a black level it wins; samples mapped through a dithered curve are compared within the dither.")

P("C19", "Conversion keeps the shooting metadata exactly",
  "Every standard EXIF shooting field (exposure, aperture, ISO and sensitivity fields, dates with sub-seconds and offsets, flash, metering, focal length, lens, serial numbers, owner, comment), copyright and artist, orientation, every GPS field, the DNG profile, noise, preview-depth, exposure and calibration-hint fields, the opcode lists and the XMP block of the source is in the converted DNG, with its type, count and value unchanged and in the directory the standards give it; no such field appears that the source does not have, and no field takes the value of another. Only --artist replaces the artist. --keep-mtime gives the output the modification time recorded in the source, its UTC offset included, or else the source's own time.",
  ["inputs", "configurations", "histories"], "every field x its boundary values, every pair of fields, all and all but one; both byte orders and both places of EXIF fields; one and two conversions; all dates x UTC offsets of the bounds",
  "A lost or swapped field shows only for sources that have the field, and about 120 fields are copied one by one.",
  ["rawler/src/exif.rs", "rawler/src/dng/convert.rs", "rawler/src/dng/writer.rs", "rawler/src/decoders/dng.rs", "rawler/src/decoders/mod.rs"],
  [("EXIF copy", "rawler/src/exif.rs"), ("DNG tags", "rawler/src/dng/writer.rs"), ("DNG source tags", "rawler/src/decoders/dng.rs")],
  "bounded exhaustive enumeration of field sets and values through the real conversion; results read by an independent TIFF reader", EX,
  "ModifyDate is set by the conversion; blanks around names are not kept; a lens that maker notes identify gets the database's names (C29); UserComment only as text; colour matrices are C04's.")

P("C18", "Development reconstructs the picture from every sample as specified",
  "Developing a raw image (process-raw, previews) corrects every sample, also in the last row and column, by the black level of its position and the white level of its channel, reconstructs the missing colours with the colour pattern of that position - PPG for RGB Bayer mosaics, neighbourhood means for four colour and X-Trans mosaics, also at all borders and for any size and region -, applies white balance and the camera's D65 matrix, turns sensors mounted at 45 degrees, and cuts exactly the active area and default crop, for mosaic, linear and monochrome images alike. Exactly the requested steps are applied. The TIFF written has these dimensions and, within rounding, these sRGB values.",
  ["inputs", "configurations"], "all sizes, regions, patterns, level patterns, step sets and areas in the bounds; all three valued neighbourhoods of the reconstruction kernels",
  "Border columns, odd sizes, odd active areas or gradient ties are few pixels of a photo and no unit test looks at pixels.",
  ["rawler/src/imgop", "rawler/src/rawimage.rs", "rawler/src/pixarray.rs", "rawler/src/cfa.rs", "rawler/src/formats/tiff/writer.rs"],
  [("steps", "rawler/src/imgop/develop.rs"), ("levels and colour", "rawler/src/imgop/raw.rs"), ("PPG", "rawler/src/imgop/sensor/bayer/ppg.rs"), ("four colours", "rawler/src/imgop/sensor/bayer/bilinear.rs"), ("X-Trans", "rawler/src/imgop/sensor/xtrans/bilinear.rs"), ("45 degrees", "rawler/src/imgop/fuji_rotate.rs")],
  "bounded exhaustive enumeration of images, regions, step sets and areas through the real development against an f64 reference", EX,
  "Images whose only matrix is not D65 are left out, as are values at the jump of the highlight handling. Default crops lie inside the active area.")

P("C27", "Every command line option takes effect exactly as documented",
  "Each option of convert and process-raw - compression, predictor, crop, preview, thumbnail, embedding of the original, artist, file time - has in every combination with the others exactly its documented effect on the output file: the compression and predictor are those named, the preview, the thumbnail and the embedded original are there if and only if asked for, the areas and the picture follow the crop mode, the artist is the given one, the file time the recorded one; everything else is as without the option. Options without influence on the output (--jobs, --loglevel, verbosity, order and spelling) do not change it. The strip settings of the environment give strips of exactly these rows with the same picture. Values outside an option's range are rejected without output.",
  ["configurations", "inputs"], "all combinations of the options in the bounds x sources with all sets of areas; all spellings and positions of neutral options; all strip settings x heights around them; all rejected values",
  "An option that is accepted and has no effect, or only has it without another option, fails silently; no unit test runs the command line.",
  ["bin/dnglab/dnglab-lib/src", "rawler/src/dng/convert.rs", "rawler/src/dng/writer.rs"],
  [("options", "bin/dnglab/dnglab-lib/src/app.rs"), ("conversion", "rawler/src/dng/convert.rs"), ("writer", "rawler/src/dng/writer.rs")],
  "exhaustive enumeration of option combinations through the real binary; outputs read by an independent DNG/TIFF reader", MC,
  "Developed pixels are compared within 8 of 65535.")

P("C28", "analyze, cameras and lenses print exactly what the file and the databases hold",
  "`dnglab analyze` prints for every readable file exactly its data: raw samples and their checksum, the levels, areas, white balance, colour pattern and shooting data, the directory tree with every entry's type and value, and the pixels (or checksum) of the developed picture, the preview and the thumbnail that the file holds; JSON and YAML hold the same data, and of a file of several images each can be chosen. `cameras` and `lenses` list every entry of the databases with its modes, once, in both list formats.",
  ["inputs", "configurations"], "all kinds of image, sample formats, areas, byte orders, presence sets and sizes of previews and thumbnails in the bounds x all outputs of analyze; all entries of the databases",
  "The analysis output is what regression tests and bug reports of the project rely on; no unit test runs it.",
  ["bin/dnglab/dnglab-lib/src", "rawler/src/analyze.rs", "rawler/src/formats/tiff"],
  [("analyze", "rawler/src/analyze.rs"), ("command", "bin/dnglab/dnglab-lib/src/analyze.rs")],
  "bounded exhaustive enumeration of files and outputs through the real binary against the writer's own knowledge of the file", EX,
  "analyze --structure is limited to the file formats with a structure dump (TIFF based DNG, CR2, ... and CR3).")

P("C29", "Lenses are identified exactly; odd lens records never stop the program",
  "A source of a supported maker (NEF with F or Z lens records, CR2, CR3, ARW, PEF, ORF, RW2, SRW, 3FR) whose maker notes identify a lens of the lens database - by id, sub-id, EXIF name or mount, and by focal length and aperture where several lenses share an identifier - yields that lens: the converted DNG holds its make, model and specification in the EXIF fields and the root LensInfo, and a DNG source's lens fields stay as they are. Lens records that are too short, encrypted in an unknown way, of an unknown version or of an unknown lens give no lens from the database and never stop the program or change anything else of the result.",
  ["inputs", "configurations"], "all entries of the lens database x makers' record versions; all truncations of the records; all byte values of the identifying fields; all presence sets of the lens fields of DNG sources",
  "Only a few of the several hundred entries occur in any collection of samples, and records vary by body generation; an index beyond a short record stops the whole conversion.",
  ["rawler/src/lens.rs", "rawler/src/decoders", "rawler/data/lenses", "rawler/src/exif.rs"],
  [("lens resolution", "rawler/src/lens.rs"), ("Nikon lens records", "rawler/src/decoders/nef/lensdata.rs"), ("EXIF copy", "rawler/src/exif.rs")],
  "bounded exhaustive enumeration of maker note records through the real conversion against the database read separately", EX,
  "Where several entries share all identifying data any of them is accepted; ids with a suffix (.1, .2) and entries without an identifier cannot be selected by a file and are left out.")

P("C30", "Previews of converted files show the source's picture",
  "A converted DNG holds a preview exactly if asked for and a thumbnail exactly if asked for. Both show the picture that the source embeds (also where its borders or its place in the file are described in the maker's own way), or the developed raw image if it embeds none: the same scene everywhere, nothing cut off, mirrored or turned, in the same proportions; previews up to 1024 pixels wide keep their size, wider ones fit 1024x768, thumbnails fit 240x120. A missing or damaged embedded picture leaves the conversion and the raw image unaffected.",
  ["inputs", "configurations"], "sizes and proportions of pictures x all forms and places of embedded pictures per maker x border and presence sets x options; all truncations and single byte damages of the directory entries in the bounds",
  "Preview extraction is separate code for each maker, and nothing in the test suite looks at a preview.",
  ["rawler/src/decoders", "rawler/src/dng/writer.rs", "rawler/src/dng/convert.rs", "rawler/src/analyze.rs"],
  [("preview extraction", "rawler/src/decoders"), ("preview and thumbnail writer", "rawler/src/dng/writer.rs")],
  "bounded exhaustive enumeration of files with embedded pictures through the real conversion against the picture placed in the file", EX,
  "The pictures in the DNG are decoded by the image crate and compared by ranges over neighbourhoods (they are lossy and scaled). RAF is left out of the damaged pictures: its metadata lies inside the picture.")
