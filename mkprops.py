"""Generates properties.jsonl (kept in the repository so the file is easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                     mechanism=[dict(name=n, where=w) for n, w in mechanism],
                     observe_at=observe, hook_needed=None)))
BC, CR, FM, TR, CL, HE = ("bmaptools/BmapCopy.py", "bmaptools/BmapCreate.py", "bmaptools/Filemap.py",
                          "bmaptools/TransRead.py", "bmaptools/CLI.py", "bmaptools/BmapHelpers.py")

p("C01", "Copying with a bmap reproduces the image exactly",
  "Copying an image with a valid bmap of it to an empty regular file succeeds, and the result has exactly the image's size, holds the image's bytes in every mapped block and reads as zeros everywhere else. This is so for every block layout, block size, partial last block, source that can only be read forward, and for every choice of checksum verification and synchronisation.",
  ["inputs", "configurations"],
  "every mapped/unmapped pattern and every way of cutting mapped runs into ranges, range lengths around every I/O batch boundary, block sizes from 512 bytes to several MiB, offsets beyond 2 and 4 GiB, whole and partial last blocks, seekable and forward-only sources, size given or not, verify on/off, sync on/off, regular-file destinations",
  "The tests copy a few dozen random images of at most 4 MiB at 4 KiB blocks; they do not reach every layout, other block sizes, adjacent ranges, batch boundaries or large offsets.",
  [BC, TR], [("range and batch splitting", BC + ":_get_block_ranges,_get_batches"), ("write loop and truncation", BC + ":copy")],
  ["the destination file's bytes and size after copying"])
p("C02", "Copying without a bmap reproduces the whole image",
  "Copying an image without a bmap writes every byte of the image, so that the result equals the image in content and length, for any image length including empty, whether or not its size is known in advance. It does not matter how many bytes the source hands out per read or whether the source can seek.",
  ["inputs", "schedules"],
  "every image length around block and I/O batch boundaries, size given or not, seekable and forward-only sources, every pattern (up to a bound) of reads that return less than was asked for",
  "The tests copy without a bmap a few random lengths from buffered files only; sources that return short reads and lengths at the batch boundaries are not enumerated.",
  [BC], [("unknown-size range generator", BC + ":_get_block_ranges"), ("reader", BC + ":_get_data")],
  ["the destination's bytes and size"])
p("C03", "Only mapped blocks inside the image are ever written to the destination",
  "While copying with a bmap, no destination byte outside the bmap's mapped blocks, or past the end of the image as stated by the bmap, is ever written, so what a block device held there is still there afterwards. An image known to be larger than the block device is refused before anything is written to it, and an image that fits, even exactly, is accepted.",
  ["inputs", "configurations", "fault_sequences"],
  "every layout, block size and tail as for C01, every capacity of the device around the image size, destinations with previous content, successful runs and runs cut short by an I/O error at any operation",
  "The tests only write to freshly created regular files; they never look at bytes between ranges, at block devices, or at failed runs.",
  [BC, CL], [("seek to range start", BC + ":copy"), ("capacity check", BC + ":BmapBdevCopy.__init__")],
  ["the log of writes that reach the destination's file descriptor", "destination content"])
p("C04", "Any corruption of checksummed image data is detected",
  "When the bmap records checksums for its ranges and verification is not disabled, copying an image whose mapped data differs anywhere from what the checksums describe ends in an error, in every bmap format version that carries range checksums and for every checksum type. Differences in unmapped areas never matter, and with verification disabled the copy goes through and copies what the image holds.",
  ["inputs", "configurations"],
  "every layout up to a bound, every choice of one or two corrupted or exchanged blocks, first, middle and last byte of each block, single-block, multi-block and multi-batch ranges, partial last block, all checksum types, bmaps where only some ranges carry a checksum, formats 1.1 to 2.0",
  "No existing test corrupts image data at all (docs/TODO.md asks for one).",
  [BC], [("range digest and comparison", BC + ":_get_data"), ("choice of checksum attribute by version", BC + ":_parse_bmap")],
  ["whether copying reports an error", "the destination's bytes"])
p("C05", "An image that does not match its bmap is never reported as copied",
  "If the source ends before the last block that has to be copied, or the image sizes, block counts or mapped-block counts stated by the bmap, by its block map or by the caller contradict each other (this includes ranges that are malformed, overlap or lie beyond the image), copying ends in an error whether or not checksums are verified. Copying never claims success for a destination that lacks any part of the image that had to be copied.",
  ["inputs"],
  "every layout up to a bound, every truncation point of the source at block granularity and at the bytes around every block edge, wrong mapped counts and wrong stated sizes, with and without bmap, seekable and forward-only sources",
  "The tests only ever pair an image with its own bmap.",
  [BC], [("mapped count check", BC + ":copy"), ("size consistency", BC + ":_set_image_size,_parse_bmap")],
  ["whether an error is reported"])
p("C06", "A corrupted bmap file is never acted upon",
  "If a bmap file that carries its own checksum is altered (any byte changed, removed or inserted, any line lost, repeated or swapped, or the file cut short at any point), it is refused before anything is written to the destination - unless the alteration turns the format version into one without such a checksum, and leaves the copied result unchanged. An unaltered bmap file is always accepted.",
  ["inputs"],
  "every single-byte substitution, deletion, duplication and insertion, every truncation point and every line-level edit of bmap files of format 1.3, 1.4 and 2.0",
  "No existing test alters a bmap file; the space of corruptions is only coverable by enumeration.",
  [BC], [("bmap checksum verification", BC + ":_verify_bmap_checksum"), ("consistency checks", BC + ":_parse_bmap")],
  ["whether the bmap is refused", "destination writes"])
p("C07", "All supported bmap formats mean the same; newer ones are refused cleanly",
  "A block map gives the same result in every supported format version (1.0 to 1.4 and 2.0), whatever the placement of its elements and the spelling of its ranges (single block, range, surrounding blanks). A bmap of a higher major version, or one that is not well-formed XML, is refused with the module's own readable error before anything is written.",
  ["inputs", "configurations"],
  "every supported version times every layout up to a bound, element orders and range spellings, minor versions of 2.x, higher major versions, syntactically broken XML of each kind, given as a plain file object and through the command line",
  "tests.test_compat copies one image with one bmap per version; newer versions and broken files are not tried at all.",
  [BC, CL], [("version dispatch", BC + ":_parse_bmap"), ("range parsing", BC + ":_get_block_ranges")],
  ["the destination after copying", "the type of the error raised"])
p("C08", "A generated bmap describes its image exactly",
  "The bmap generated for an image lists exactly its mapped blocks (those with any data) as ascending, disjoint, maximal ranges, states the true image size, block size, block count and mapped count, and carries correct range checksums (or none if they are disabled) and a correct checksum of itself. Generating it again gives the same file, leaves the image and its file position unchanged, and the result is accepted by the copying code and reproduces the image.",
  ["inputs", "configurations"],
  "every hole layout up to a bound, holes that begin or end inside blocks, partial last blocks, block sizes, images of 1 byte to many GiB, all checksum types, checksums on/off, image and bmap given by path or as file objects, output previously holding other content, both hole-detection methods",
  "The tests compare create+copy round trips of random 4 KiB-block images; they never check the written ranges, counts, header or checksums against the image.",
  [CR], [("header and footer rewriting", CR + ":_bmap_file_start,_bmap_file_end"), ("range checksums", CR + ":_calculate_chksum")],
  ["the generated file, read by an independent parser"])
p("C09", "Hole maps are exact for every layout, query window and method",
  "For any query window, the mapped ranges and the unmapped ranges reported by either hole-detection method are ascending, maximal inside the window and together cover the window exactly once, and agree with the file's true layout (a block which holds any data, be it part of the block only, is mapped) and with the single-block queries. This does not depend on how the file system fragments or batches its extent answers, nor on other queries of the same map being in progress.",
  ["inputs", "configurations"],
  "every layout up to a bound, every window inside the file, every split of a mapped run into extents, extents that stick out of the window or of the file, extents and data that begin or end inside a block, every number of extents per answer (including more than fit one answer), partial last blocks, block sizes",
  "The test queries random windows of a few random files with far fewer extents than fit one FIEMAP answer, so continuation is never exercised.",
  [FM], [("FIEMAP walk", FM + ":_do_get_mapped_ranges,get_mapped_ranges,get_unmapped_ranges"), ("SEEK_HOLE walk", FM + ":_get_ranges")],
  ["the yielded ranges and the block queries"])
p("C10", "The hole-detection method is chosen safely for every system answer",
  "FIEMAP is used if the file system supports it, SEEK_HOLE if only that is really supported, and otherwise an error is reported, readably by the create command; a stub implementation, an incompatible ZFS setup or an unexpected system error never leads to a map. The image is synchronised before it is mapped, and no file is left behind by the probing.",
  ["fault_sequences", "configurations"],
  "every combination of answers of the file system and kernel: FIEMAP, SEEK_HOLE, block-size query, temporary-file creation, synchronisation, file-system type and ZFS parameter",
  "The tests see only what the machine's own file system answers; the ZFS helpers are tested one by one, not as a gate in front of the map.",
  [FM, HE, CR], [("method selection", FM + ":filemap"), ("probe", FM + ":_probe_seek_hole"), ("zfs gate", HE + ":is_compatible_file_system")],
  ["which method's answer is used, or the error", "directory contents"])
p("C11", "The copy pipeline gives one outcome under every thread schedule",
  "For every interleaving of reading and writing, copying terminates with the same destination content or reports the same failure as a purely sequential copy would, in particular errors of the reading side always reach the caller. The reader never runs ahead by more than a fixed small amount of data, and once copying has returned or failed, no background activity stays behind.",
  ["schedules"],
  "all thread schedules up to a preemption bound (and all schedules for short pipelines) for images of fewer and of more batches than the pipeline buffers, with and without a failing read, a checksum mismatch, a failing write or an interrupt at each position",
  "A test run sees one schedule chosen by the operating system.",
  [BC], [("bounded batch queue", BC + ":copy,_get_data")],
  ["results and errors of copying under a controlled scheduler"],
  [("batch queue", "batches read and not yet written", BC + ":copy")])
p("C12", "No I/O failure is ever reported as a successful copy",
  "If any read of the source or any write, truncation, flush or synchronisation of the destination fails, at any point, copying reports an error. Interrupted and partial system calls that can be continued do not change the result.",
  ["fault_sequences"],
  "every single failing system call (and pairs of them) on the source and on the destination of runs of several batches, with errno ENOSPC/EIO, short writes and EINTR, with and without bmap, verification and synchronisation, regular files and block devices, through the API and the command line",
  "No existing test injects an I/O error.",
  [BC, CL], [("error wrapping", BC + ":copy,sync,_get_data")],
  ["whether an error is reported and the command's exit status"])
p("C13", "A copy that reported success is durable, and unsynced data stays bounded",
  "When a copy that was asked to synchronise returns, and when the copy command exits with success, every byte and the final size of the destination have been synchronised after they were last written, so no crash can lose them. While writing to a block device, the amount of data written but not yet synchronised never exceeds a few MiB.",
  ["crash_points", "histories"],
  "every crash point of every run in a bounded family (layouts, sizes up to a few watermarks, block sizes, regular file and block device, API and command line), with every subset of unsynchronised writes lost",
  "Tests cannot crash the machine; the tests never look at synchronisation.",
  [BC, CL], [("sync after flush", BC + ":copy,sync"), ("fsync watermark", BC + ":copy"), ("final sync", CL + ":copy_command")],
  ["the log of writes, truncations and synchronisations on the destination"])
p("C14", "Block-device tuning is always undone",
  "Whatever happens while copying to a block device (success, any I/O error, checksum mismatch, user interrupt), the I/O scheduler and write-buffering settings end up as they were before. Settings that are already as wanted are not written at all, settings that cannot be read or changed do not stop the copy, and failure to restore one is reported.",
  ["fault_sequences", "histories"],
  "every initial setting, every availability and permission of the two settings, whole disk and partition, every failing operation or interrupt during the copy and every failing access to the settings",
  "The tests never touch a block device.",
  [BC], [("context manager for sysfs values", BC + ":SysfsChange"), ("nesting around the copy", BC + ":BmapBdevCopy.copy")],
  ["the settings files and the log of accesses to them"],
  [("queue/scheduler, bdi/max_ratio", "kernel settings of the device", "/sys/dev/block/MAJ:MIN/")])
p("C15", "The copy and create commands' exit status tells the truth",
  "For every combination of options and inputs, the copy command exits with 0 exactly if the destination then holds the complete, correct image, and otherwise exits with a non-zero status and an error message; mutually exclusive options are refused before the destination is touched. The create command likewise exits with 0 exactly if it produced a complete bmap, which is the same on standard output and in an output file.",
  ["configurations", "inputs"],
  "the product of options (bmap given, discovered, absent, broken or foreign; no-bmap; no-verify; signature options; quiet and debug), image forms (plain, compressed, URL, standard input, missing, damaged), and destinations (new file, existing file, block device, busy block device, unwritable)",
  "Five CLI tests exist, four of which only expect exit status 1.",
  [CL], [("option checks and error_out", CL + ":copy_command,create_command,main"), ("exclusive open", CL + ":open_block_device")],
  ["exit status, messages, destination"])
p("C16", "Reading through compression or a URL is indistinguishable from the plain file",
  "For every supported extension, compressor and transport, any sequence of reads, forward seeks within the data and position queries gives the same data as on the uncompressed local file, and the reported size is the true one or unknown. It does not matter which of the alternative decompression programs are installed; a missing one leads to an error that names it.",
  ["inputs", "histories", "configurations"],
  "every documented extension and format, every operation sequence up to a depth over boundary sizes and offsets, contents from empty to several MiB, local path, file URL, HTTP and SSH, presence or absence of each external program",
  "The tests read compressed files sequentially through copying only, always with all programs present.",
  [TR], [("extension table and decompressor start", TR + ":_open_compressed_file"), ("forward seek emulation", TR + ":_fake_seek_forward")],
  ["data and positions returned"])
p("C17", "A damaged or cut-off source is never taken for a complete one",
  "If compressed input is truncated or damaged, a decompressor or remote transfer fails, or a download ends before the announced length, then reading to the end raises an error instead of reporting a normal end of file, and the copy command fails unless all the data it needed had arrived intact. Complete input never raises such an error.",
  ["inputs", "fault_sequences"],
  "every format, truncation at every offset of small files and at block-structured offsets of larger ones, single-byte damage, failing transfers at every chunk, local and remote, with and without bmap",
  "No existing test reads a damaged or incomplete source.",
  [TR], [("decompressor pipeline", TR + ":_open_compressed_file,_read_thread,read")],
  ["whether reading raises an error", "exit status of the command"])
p("C18", "Closing a source at any moment releases everything it used",
  "After a source is closed, at whatever point of reading, or after opening it failed, no decompressor or remote-shell process, thread, temporary file or open file remains, and closing neither fails nor hangs, also when done twice.",
  ["histories", "schedules"],
  "every source kind (plain, each compression, file URL, HTTP, SSH), closed after every number of reads and seeks up to a bound, including before the first read, mid-stream of data larger than the pipes, after the end and after an error, once and twice",
  "The tests close sources only after complete reads and never look at what remains.",
  [TR], [("destructor and close", TR + ":__del__,close"), ("feeder thread", TR + ":_read_thread")],
  ["processes, threads and file descriptors before and after"])
p("C19", "Nothing is copied unless the bmap's signature is acceptable",
  "If a bmap carries a signature (given, discovered or built in) that was not made by a trusted, valid key over exactly this bmap, the copy command fails and writes no image data; if the signature is good, the copy proceeds with the signed block map. Only the explicit option to skip verification bypasses this, and a built-in-signature bmap is then still understood.",
  ["configurations", "inputs"],
  "every kind of signature (good, over other data, unknown key, untrusted, expired, revoked, damaged, empty, several signatures) times detached/discovered/built-in, times skip option, times local and remote bmap and signature, plus every single-byte change of the signed bmap up to a bound",
  "The signature tests expect exit status 1 only, the one positive test fails since its key expired, and built-in signatures are not tested at all (its test passes because of a crash).",
  [CL], [("detached and clearsign verification", CL + ":verify_bmap_signature and callees")],
  ["exit status, destination content"])
p("C20", "Bmap and signature discovery picks the right file",
  "Without an explicit bmap, the copy command uses the file named after the image with the fewest extensions stripped, next to the image (or at the same URL), and refuses to copy if there is none; explicit options always win over discovery, and --nobmap disables it. A signature is discovered next to the bmap with extension .asc, then .sig.",
  ["configurations"],
  "every image name shape (several extensions, dots in directories, hidden files, no extension), every subset of existing candidate files, explicit/no/disabled bmap, local and URL images, every subset of signature files",
  "No existing test uses discovery.",
  [CL], [("discovery loop", CL + ":find_and_open_bmap"), ("signature discovery", CL + ":verify_detached_bmap_signature")],
  ["which of several distinguishable candidate files is used"])
p("C21", "Progress reports are truthful and harmless",
  "Progress percentages reported on the console or to psplash are whole numbers from 0 to 100 that never decrease, never exceed the fraction really written, and reach 100 on a completed copy of known size that wrote anything. A psplash pipe that is missing, is no pipe, has no reader, is full or breaks never disturbs or blocks the copy.",
  ["inputs", "fault_sequences"],
  "every layout and batch count up to a bound, known and unknown size, every state of the psplash pipe and change of it at every progress update",
  "The tests enable progress output randomly and only on a terminal, and never look at it.",
  [BC], [("progress update", BC + ":_update_progress,set_psplash_pipe")],
  ["text written to the progress file and the pipe"])
p("C22", "Remote access uses the right credentials and reports every failure",
  "Credentials from the URL, or else from netrc, are used exactly for the host they belong to and are never sent to another host; every refusal, malformed answer or connection failure of an HTTP or SSH source ends in a readable error of the reading module, and a working server ends in the file's content. A missing or malformed netrc file does not prevent access. An HTTPS host that does not prove its name gets no request; the proxy variables of the environment are honoured and the proxy's credentials go to the proxy only.",
  ["configurations", "fault_sequences"],
  "every combination of URL credentials, netrc state and server behaviour (success, challenge, refusal, not found, redirect to the same or another host, garbage, early close, refused connection), every kind of server certificate and trust, every proxy state and behaviour, and every exit status of the SSH programs at every stage",
  "No existing test opens an HTTP or SSH URL.",
  [TR], [("URL opening", TR + ":_open_url,_open_url_ssh")],
  ["requests seen by servers, arguments seen by SSH stand-ins, content or error"])
p("C23", "Commands never modify their inputs",
  "The copy and create commands never change the image, the bmap or the signature file, in content, size or modification time. In particular a destination or output that is the same file as the image or an explicitly given bmap or signature, under whatever name, is refused without harm.",
  ["configurations", "inputs"],
  "copy and create over every input form, success and failure, and every way of naming an input as output (same path, relative path, symbolic link, hard link, standard input)",
  "The tests check neither inputs after a run nor aliasing.",
  [CL, CR, FM], [("opening of files", CL + ":open_files,create_command")],
  ["content and timestamps of the inputs after each run"])
p("C24", "The standalone writer agrees with bmaptool copy",
  "For any uncompressed image and any plain (not clear-signed) bmap that bmaptool accepts for it, the standalone writer in contrib produces the same destination content as the copy command, on a file or a block device, and the data is synchronised when it ends. A failing read, write or synchronisation is reported by its exit status, and it refuses missing inputs and wrong usage without creating or changing anything.",
  ["inputs", "fault_sequences"],
  "every layout and cut into ranges up to a bound, block sizes, tails, range spellings, header orders, format versions, unordered and overlapping ranges, file names, destinations, every single I/O failure, missing files and wrong argument counts",
  "No test runs the standalone writer.",
  ["contrib/bmap_write.py"], [("range loop", "contrib/bmap_write.py")],
  ["the two destination files"])
p("C25", "Figures and warnings shown to users are true",
  "The sizes, percentages, block counts, times and speeds which the commands, the copier, the generator and the comments of generated bmaps state agree with what really is and happens, in a unit that fits, for sizes from 0 to many TiB; quiet mode prints no such information. Warnings appear exactly when what they warn about is the case: a destination below /dev that is no device, a bmap that is missing or useless, device settings that could not be changed.",
  ["inputs", "configurations"],
  "every size around each unit boundary, every time around each rounding boundary, every layout up to a bound with block sizes and partial last blocks, clocks that step in every way, every kind of destination, verbosity options, every state of the device settings",
  "The tests never look at what is printed or at the human-readable attributes.",
  [HE, BC, CR, CL], [("conversion to readable figures", HE + ":human_size,human_time"), ("messages", CL + ":copy_command,create_command"), ("attributes", BC + ":_set_image_size,_parse_bmap"), ("comments of the bmap", CR + ":_bmap_file_start,_bmap_file_end")],
  ["printed text, log records, attributes, comments in the generated bmap"])
p("C26", "Objects used side by side do not influence each other or their process",
  "Several copiers, generators, hole maps and image readers can be used in the same process, one after another, in turns, or one within the callbacks of another: each gives the result it gives alone. None of them changes settings of the process (signal handlers, URL openers, locale, directory, environment, limits, standard streams), nor consumes the standard input unless it is the image.",
  ["schedules", "histories"],
  "every pair of object kinds (successful and failing) times every interleaving of their steps up to a bound on switches, every nesting of one in the I/O of another, the settings of the process before and after each kind, the image on standard input together with helpers that read it",
  "The tests use one object at a time and never look at the process.",
  [BC, CR, FM, TR], [("URL opener", TR + ":_open_url"), ("helper processes", TR + ":_open_compressed_file,_open_url_ssh"), ("per-object state", FM + ":FilemapFiemap"), ("copier state", BC + ":BmapCopy.__init__")],
  ["results of each object compared with those it has alone, state of the process"])
p("C27", "The commands leave nothing behind but their result, however they end",
  "When a command ends - with success, with an error, or because of Ctrl-C at any moment - there are no temporary files, no half-made extra files, no helper processes and no probe files left, neither in the temporary directory nor next to the image, the bmap or the destination. An interrupted command ends promptly and is not reported as success unless its work is complete.",
  ["crash_points", "configurations"],
  "copy and create over every kind of source, bmap and signature, ending in every way, with an interrupt at every system call on the files involved",
  "The tests look neither at the temporary directory nor at processes after a run, and never interrupt one.",
  [CL, TR, FM], [("temporary bmap and signature files", CL + ":find_and_open_bmap,verify_bmap_signature"), ("helper processes", TR + ":close"), ("probe file", FM + ":FilemapSeek")],
  ["directories and processes after the command"])
p("C28", "Objects can be used again, after success and after failure",
  "After a copy, a bmap generation or a hole-map query has ended in any way - success, an I/O error, a checksum mismatch, an image found too short, an interrupt - the same object can be asked again: a later run that reports success has done the whole work, and it ends. For a bmap generator and a hole map it also succeeds once the trouble is over; a copier may refuse any further run.",
  ["histories", "fault_sequences", "schedules"],
  "every history of one earlier run with a fault or interrupt at every operation, all histories of two such runs at the first, middle and last operation of each kind, followed by a good run, over source kinds, destinations and layouts; all schedules of the reader thread of an interrupted run against the next run, up to a bound on preemptions",
  "The tests call copy() and generate() once per object.",
  [BC, CR, FM], [("reader thread and its stop flag", BC + ":copy,_get_data"), ("restart of the output", CR + ":generate"), ("range generators", FM + ":get_mapped_ranges")],
  ["success or error of each run, destination content and generated bmap after it"])
p("C29", "Only mapped data is read and written, once, and memory stays bounded",
  "Copying an image that can be sought with a bmap of it reads the mapped areas and, apart from a small read-ahead at each of them, nothing else, and writes every mapped byte exactly once and nothing else, so that unmapped areas of a new file stay holes. Creating a bmap reads each mapped byte once, and no image data at all without checksums. The memory which copying and creating need does not grow with the size of the image or of its holes, whatever the image is read through.",
  ["inputs", "configurations"],
  "every layout of blocks up to a bound and every way of cutting runs into ranges, images with hundreds of small far-apart ranges, partial last block, verification on/off, plain, unbuffered and URL access, new and old files and block devices, both ways of finding holes, checksums on/off; image sizes up to half a GiB plain, compressed, archived, from the standard input, HTTP and ssh, with data and with holes",
  "The tests compare results only; reading or writing more than needed, or the whole image into memory, gives the same results with their small images.",
  [BC, CR, TR], [("range loop of the reader", BC + ":_get_data"), ("checksum calculation", CR + ":_calculate_chksum"), ("skipping forward", TR + ":_fake_seek_forward"), ("bounded queue", BC + ":copy")],
  ["log of reads and writes of the image and the destination", "holes of the destination", "peak memory of the process"])
p("C30", "Results depend neither on file names nor on the environment",
  "Whatever the files involved are called (any bytes a file name may hold, names that look like options, URLs, patterns or formats) and in whatever environment the commands are started (locale, encoding, home, temporary and working directory, umask, inherited signal settings), they do the same. Under a resource limit or with standard streams closed they may fail, but never report success for a result that is not complete, nor damage another file.",
  ["inputs", "configurations"],
  "every byte value in names plus a table of odd names, in every role a file can have, relative, absolute and URL spelling; every combination of locale and encoding settings; a table of other environment settings; every subset of closed standard streams; every kind of inherited signal disposition with intact and broken compressed images; every limit on open files from 3 to 23 and several on file sizes",
  "The tests run in one environment with generated temporary names.",
  [CL, TR, BC], [("name handling", TR + ":__init__,_open_url,_open_compressed_file"), ("messages", CL + ":error_out,setup_logger"), ("discovery", CL + ":find_and_open_bmap")],
  ["exit status, result files, other files in the directory"])
p("C31", "Files replaced or removed while a command runs are used consistently",
  "If the image, the bmap or the signature is replaced by another file (renamed over) or removed at any moment while a command runs, a copy that reports success has used one bmap throughout, the very one whose signature was verified, and its destination is the complete result for one state of the files; a created bmap describes one state of the image. Otherwise a readable error is reported.",
  ["schedules", "configurations"],
  "every access by path a command makes as the moment before which a file is replaced or removed, every pair of such moments for a forged bmap and back, every order and combination of moments for a new build that replaces the old one file by file; every way of finding bmap and signature",
  "The tests run the commands with files nobody else touches.",
  [CL, TR, CR], [("signature verification", CL + ":verify_detached_bmap_signature,verify_clearsign_bmap_signature"), ("opening", CL + ":find_and_open_bmap,open_files")],
  ["exit status, destination content or written bmap, error message"])
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w").write("".join(json.dumps(x) + "\n" for x in P))
print(len(P))
