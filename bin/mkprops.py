#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Kept as a program so that the statements are edited in one place."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=hook)))

prop("C01", "Reading any byte sequence is memory-safe and leaves the process alive",
 "Whatever bytes a file contains, reading it with any of the registered bitmap readers (PNG, TGA, BMP, PBM/PGM/PPM/PNM, GF) performs no invalid memory access and no undefined operation, and, as long as memory for the declared image size can be obtained, never aborts, exits or hangs the calling process. The reader returns either an empty bitmap or one whose every pixel of width x height x planes bytes was allocated and initialised by the read.",
 ["inputs"], "every byte string up to the size bound, for each reader, however damaged: valid files of every sub-format, mutated headers, truncated bodies, hostile lengths",
 "The five image tests feed three well-formed PBM/BMP files; no malformed byte, no PNG, TGA, GF or paletted BMP is ever read, and nothing checks memory accesses.",
 ["src/input-bmp.c", "src/input-tga.c", "src/input-pnm.c", "src/input-png.c", "src/input-gf.c", "src/autotrace.c"],
 [("header range checks before allocation", "src/input-bmp.c input_bmp_reader"), ("RLE decoder with partial-packet state", "src/input-tga.c rle_fread"), ("token scanner with fixed buffer", "src/input-pnm.c pnmscanner_gettoken"), ("libpng error callbacks", "src/input-png.c handle_error"), ("bounding-box relative pixel writes", "src/input-gf.c gf_get_char")],
 ["return value of at_bitmap_read", "message callback", "process status"])

prop("C02", "A well-formed image file decodes to exactly the pixels it encodes",
 "For every well-formed file of a supported sub-format, the bitmap returned has the encoded width and height, three planes or, only if all its colours are grey, one, and every pixel has exactly the encoded colour with the top image row first. Alpha channels and transparency information do not change the colours, and samples with a maximum other than 255 are scaled linearly so that the maximum becomes 255 (rounding either way). A GF character is cropped to its painted pixels, which become 255 while all others are 0.",
 ["inputs"], "every pixel content and every size up to the bound, for PNM P1-P6 with comments and any maxval up to 255, BMP 1/4/8/16/24/32 bit with RLE, bit masks, both row orders and all header generations, TGA types 1,2,3,9,10,11 with every origin, PNG of every colour type, depth and interlacing, and GF characters",
 "Tests only check the exit status for two BMP files and one SVG made from one PBM; pixel values of no other format or variant are ever compared.",
 ["src/input-bmp.c", "src/input-tga.c", "src/input-pnm.c", "src/input-png.c", "src/input-gf.c"],
 [("palette and scan-line decoding", "src/input-bmp.c ReadImage"), ("colour-map expansion and flipping", "src/input-tga.c ReadImage"), ("maxval scaling", "src/input-pnm.c"), ("transform flags and row copy", "src/input-png.c load_image"), ("paint/skip run decoding", "src/input-gf.c")],
 ["at_bitmap contents returned by at_bitmap_read"])

prop("C03", "Missing, foreign or truncated input is reported, never silently accepted",
 "If a file does not exist, is not of the reader's format, or ends before all of its pixel data has been read, reading it passes a warning or fatal message to the message callback. A file that is intact never produces a fatal message.",
 ["inputs", "fault_sequences"], "every truncation point of valid files of every sub-format, missing files, directories and files of another format or with a damaged magic number",
 "No test reads a damaged, missing or foreign file, so the message callback is never exercised.",
 ["src/input-bmp.c", "src/input-tga.c", "src/input-pnm.c", "src/input-png.c", "src/input-gf.c", "src/exception.c"],
 [("exception object routed to the client callback", "src/exception.c at_exception_fatal"), ("magic and header tests", "each reader"), ("short read tests", "each reader")],
 ["message callback", "at_bitmap returned"])

prop("C04", "Tracing any bitmap with any options is memory-safe and terminates",
 "For every one- or three-plane bitmap and every documented combination of fitting options, tracing performs no invalid memory access, no undefined operation and no read of uninitialised memory, does not abort or exit the process, and terminates. Bitmaps with another plane count never crash it either.",
 ["inputs", "configurations"], "bitmaps of every content up to the size bound including empty, one-pixel-wide and noise images; every option value the documentation allows",
 "Tests trace three images with default options and -centerline only.",
 ["src/autotrace.c", "src/fit.c", "src/pxl-outline.c", "src/thin-image.c", "src/despeckle.c", "src/median.c", "src/image-proc.c", "src/curve.c", "src/spline.c", "src/vector.c"],
 [("bounds tests on neighbour pixels", "src/pxl-outline.c"), ("minimum point counts before fitting", "src/fit.c"), ("level clamp", "src/despeckle.c despeckle"), ("histogram boxes", "src/median.c")],
 ["return value of at_splines_new_full", "process status"])

prop("C05", "Traced spline lists are structurally sound",
 "Every non-NULL result of tracing has the bitmap's width and height and the option values it inherits, consists of non-empty lists whose splines are linear or cubic with finite coordinates near the image frame, and consecutive splines join exactly end to start. A list that is not marked open also joins its last end to its first start, and each list's colour is a colour present in the processed bitmap and different from the background colour.",
 ["inputs", "configurations"], "all bitmaps up to the size bound and all documented option combinations, outline and centerline",
 "Tests compare one complete SVG; structural soundness for other images or options is never looked at.",
 ["src/fit.c", "src/spline.c", "src/pxl-outline.c", "src/autotrace.c"],
 [("curves share their corner points", "src/fit.c split_at_corners"), ("first point appended to cyclic curves", "src/fit.c fit_curve_list"), ("subdivision shares the split point", "src/fit.c fit_with_least_squares")],
 ["at_splines_type returned by at_splines_new_full"])

prop("C06", "Outline tracing reproduces every colour region of the image",
 "Painting the outlines returned for a bitmap in list order, counter-clockwise lists in their own colour and clockwise ones in the background colour, gives every pixel that is further from a colour boundary than the fit tolerance exactly its original colour; pixels of the background colour stay unpainted. This holds without a background colour for any number of colours, and with one for any image whose enclosed holes start with background.",
 ["inputs", "configurations"], "all images up to the size bound with up to eight colours, nested rings, islands in holes, diagonal touches, one-pixel features and regions touching every border",
 "One rectangle is compared in the test; no image with holes, several colours or nested regions.",
 ["src/pxl-outline.c", "src/fit.c", "src/curve.c"],
 [("every top/bottom edge not yet marked starts an outline", "src/pxl-outline.c find_outline_pixels"), ("edge marking", "src/pxl-outline.c mark_edge"), ("outside outlines before inside ones", "src/pxl-outline.c")],
 ["at_splines_type returned by at_splines_new_full"])

prop("C07", "Fitted outlines stay within the requested error of the pixel boundary",
 "With smoothing and straight-line replacement switched off, every corner point of every colour boundary lies within the error threshold plus three quarters of a pixel (at least 1.6 pixels) of an outline of one of the colours that meet there; every outline stays equally close to the boundary of its colour, and its joints lie exactly on it. The first smoothing iteration may add at most one pixel to these distances and each further one half a pixel.",
 ["inputs", "configurations"], "all images up to the size bound; error thresholds 0.05 to 8, 0 to 4 filter iterations, all corner and tangent settings",
 "No test measures the distance between splines and pixels.",
 ["src/fit.c", "src/vector.c", "src/spline.c", "src/curve.c"],
 [("subdivide where the error exceeds the threshold", "src/fit.c fit_with_least_squares"), ("distance at each sample", "src/fit.c find_error"), ("least-squares control points", "src/fit.c fit_one_spline")],
 ["at_splines_type returned by at_splines_new_full"])

prop("C08", "Centerline tracing keeps the topology of strokes and stays on them",
 "In centerline mode the processed bitmap is obtained by turning pixels of each colour into background only: no colour appears, no 8-connected stroke vanishes, splits or merges, and no pixel that could still be removed without changing the topology or shortening an end remains. Every spline end lies on a thinned pixel of its own colour (moved by smoothing at most), and every pixel of a thinned stroke of two or more pixels is within five pixels plus the error threshold of some curve of its colour.",
 ["inputs", "configurations"], "all stroke images up to the size bound, grey and colour, any background colour, strokes touching borders, loops, junctions and blobs",
 "One centerline SVG and two exit codes are tested.",
 ["src/thin-image.c", "src/pxl-outline.c", "src/autotrace.c"],
 [("8-simple deletion table applied direction by direction", "src/thin-image.c thin1/thin3"), ("per-colour thinning", "src/thin-image.c thin_image"), ("centerline walk with direction marks", "src/pxl-outline.c find_centerline_pixels")],
 ["bitmap after at_splines_new_full", "at_splines_type returned"])

prop("C09", "Colour reduction leaves at most the requested number of colours",
 "After tracing with a colour count of N from 1 to 256 the processed bitmap and the outlines use at most N distinct colours; pixels that had the same colour before have the same colour after, pixels of the background colour keep exactly that colour, and the size of the bitmap is unchanged. Every other pixel receives the nearest of the remaining colours (green weighing more than red, red more than blue), and an image that has at most N colours keeps all of them to within two levels per channel.",
 ["inputs", "configurations"], "all images, one and three planes, N from 1 to 256, with and without a background colour that occurs in the image, gradients, noise, single-colour and all-background images",
 "No test uses a colour count.",
 ["src/median.c", "src/autotrace.c"],
 [("median-cut boxes", "src/median.c median_cut"), ("box means", "src/median.c compute_color"), ("nearest colour mapping", "src/median.c quantize_pass2")],
 ["bitmap after at_splines_new_full", "list colours"])

prop("C10", "Despeckling only merges small features into similar neighbours",
 "Despeckling never introduces a colour that was not in the bitmap, never splits a 4-connected region or changes one of at least 2^(level-1) pixels, and merges a small region into its most similar neighbour only when the two differ by no more than tightness, noise removal and the region's size allow. With tightness 0 and full noise removal no region smaller than 2^(level-1) pixels survives (level limited by the image size), and with level 0 the bitmap is untouched.",
 ["inputs", "configurations"], "all grey and colour bitmaps up to the size bound, levels 0 to 20, tightness 0 to 8, noise removal 0 to 1",
 "No test uses despeckling.",
 ["src/despeckle.c", "src/autotrace.c"],
 [("region size by flood fill", "src/despeckle.c find_size"), ("closest neighbour colour", "src/despeckle.c find_most_similar_neighbor"), ("tightness test", "src/despeckle.c recolor")],
 ["bitmap after at_splines_new_full"])

prop("C11", "Cancelling at any poll stops the trace, returns NULL and leaks nothing",
 "If the cancel callback returns true at any one of its calls, whether or not it keeps returning true afterwards, tracing returns NULL without announcing completion, releases everything it allocated and leaves the options unchanged. If it never returns true the result is identical to tracing without a callback, and in either mode the callback is polled at least once per image row and before each outline is fitted.",
 ["inputs", "fault_sequences", "configurations"], "every poll index of each workload image, transient and sticky cancellation, outline and centerline, with and without preserved widths",
 "No test passes a cancel callback.",
 ["src/autotrace.c", "src/pxl-outline.c", "src/fit.c"],
 [("cancel points", "src/autotrace.c at_splines_new_full"), ("scan loop polls", "src/pxl-outline.c"), ("per-list poll", "src/fit.c fitted_splines")],
 ["test_cancel callback", "return value", "allocator"])

prop("C12", "Progress notifications are in range, never go back and end at one",
 "Every value passed to the progress callback lies between 0 and 1, the sequence never decreases, and a trace that succeeds ends with exactly one notification of 1.0 as its last. Supplying the callback does not change the splines.",
 ["inputs", "configurations"], "all bitmaps up to the size bound, outline and centerline, every option",
 "No test observes progress values.",
 ["src/autotrace.c", "src/pxl-outline.c", "src/fit.c", "src/curve.c"],
 [("scan phase fraction", "src/pxl-outline.c"), ("fit phase fraction", "src/fit.c fitted_splines"), ("clean-up phase fraction", "src/curve.c free_curve_list_array"), ("final notification", "src/autotrace.c")],
 ["notify_progress callback"])

prop("C13", "Results depend only on the arguments, not on earlier calls",
 "Reading a file, tracing a bitmap and writing splines give bit-identical results whenever they are repeated with equal arguments in one process, no matter which other reads, traces (successful, failed or cancelled) and writes happened before and what the heap contained. The only exception is the glyph metrics that a GF font read hands to the UGS writer.",
 ["histories", "inputs"], "sequences of reads, traces and writes of all formats in any order, with failing and cancelled calls in between, compared against a fresh process",
 "Every test is a separate process that performs a single read, trace and write.",
 ["src/thin-image.c", "src/output-fig.c", "src/output-ild.c", "src/output-emf.c", "src/output-dr2d.c", "src/input-tga.c", "src/input-gf.c", "src/input.cpp", "src/output.cpp"],
 [("per-call state", "all readers and writers"), ("static tables reset per call", "src/output-fig.c fig_col_init")],
 ["bitmaps, splines and bytes returned by each call"],
 [("thinning background", "colour deleted pixels become", "src/thin-image.c"), ("colour table", "colours allotted so far", "src/output-fig.c"), ("draw frame", "points of the frame being drawn", "src/output-ild.c")])

prop("C14", "Calls leave their arguments alone and copies are independent",
 "Tracing leaves the fitting options as they were, reading leaves the input options as they were, and writing leaves splines and output options as they were, so the same objects can be used again in any order. A copied options object or bitmap equals the original and shares no storage with it, and newly created option objects have the documented defaults.",
 ["inputs", "histories", "configurations"], "all option values, bitmaps and spline sets, all readers and writers, including failing and cancelled calls",
 "Option objects are used once per test process.",
 ["src/autotrace.c", "src/fit.c", "src/input-gf.c", "src/color.c"],
 [("temporary corner_surround restored", "src/fit.c split_at_corners"), ("deep copy of background colour", "src/autotrace.c at_fitting_opts_copy"), ("bitmap copy", "src/autotrace.c at_bitmap_copy")],
 ["option structs, splines and bitmaps before and after each call"])

prop("C15", "No call leaks memory or file descriptors on any path",
 "After every read, trace, write and free cycle, including reads that fail, traces that fail or are cancelled and writers that refuse their input, no memory allocated by the library remains unreachable and no file descriptor stays open. Repeating the same cycle does not increase the memory the library holds.",
 ["inputs", "fault_sequences", "histories"], "all readers on valid and damaged files, all tracing modes with cancellation at any poll, all writers, all API objects",
 "Tests run once per process without leak detection.",
 ["src/autotrace.c", "src/spline.c", "src/curve.c", "src/pxl-outline.c", "src/median.c", "src/input-tga.c", "src/input-gf.c", "src/input-png.c", "src/output-mif.c", "src/output-dr2d.c", "src/output-ild.c"],
 [("at_splines_free / free_spline_list_array", "src/spline.c"), ("clean-up labels", "src/autotrace.c"), ("chunk list release", "src/output-dr2d.c FreeChunks")],
 ["allocator (leak checker)", "/proc/self/fd"])

prop("C16", "Writing any spline set in any format is memory-safe",
 "For every structurally sound spline set, including an empty one, with any number of lists and colours, any file name and any output options, every registered writer performs no invalid memory access, undefined operation or use of uninitialised memory, does not exit or abort the process, and terminates. A writer that cannot represent the splines reports it through the message callback.",
 ["inputs", "configurations"], "spline sets with 0 to hundreds of lists and more colours than any format's table, coordinates slightly outside the frame, names of any length and bytes, dpi values",
 "Tests write SVG only.",
 ["src/output-eps.c", "src/output-er.c", "src/output-fig.c", "src/output-sk.c", "src/output-svg.c", "src/output-ugs.c", "src/output-p2e.c", "src/output-emf.c", "src/output-dxf.c", "src/output-epd.c", "src/output-pdf.c", "src/output-mif.c", "src/output-cgm.c", "src/output-dr2d.c", "src/output-pov.c", "src/output-plt.c", "src/output-ild.c"],
 [("colour table limits", "src/output-fig.c, src/output-mif.c"), ("fixed text buffers", "src/output-pdf.c, src/output-mif.c"), ("coordinate conversion macros", "src/output-emf.c, src/output-cgm.c, src/output-plt.c")],
 ["at_splines_write", "process status", "message callback"])

prop("C17", "Formats with curves carry exactly the traced curves and colours",
 "Reading back a file written as SVG, EPS, AI, PDF, EPD, P2E, SK, EMF, CGM, DR2D, POV or ER yields, in the same order, every list with its splines - degree, end points and control points mapped by the format's coordinate transform - to the precision the format's number encoding allows (ER also the preserved widths). Each list has its own colour (ER has none; SK, EMF, CGM and DR2D, which paint every list by itself, give holes the background colour), is filled unless it is a centerline or open, which are stroked, and numbers are written with a decimal point whatever the locale.",
 ["inputs", "configurations"], "all structurally sound spline sets of closed lists or of centerline lists, any colours, frame sizes and locales",
 "One SVG is compared byte for byte; the other eleven formats are never written.",
 ["src/output-svg.c", "src/output-eps.c", "src/output-pdf.c", "src/output-epd.c", "src/output-p2e.c", "src/output-sk.c", "src/output-emf.c", "src/output-cgm.c", "src/output-dr2d.c", "src/output-pov.c", "src/output-er.c", "src/autotrace.c"],
 [("per-list and per-spline loops", "each writer's out_splines"), ("colour change detection", "each writer"), ("setlocale LC_NUMERIC", "src/autotrace.c at_splines_write")],
 ["bytes written by at_splines_write"])

prop("C18", "Formats without curves carry polylines that follow the traced curves",
 "Reading back a file written as FIG, DXF, PLT, MIF, ILD or UGS yields for every list, in order and in its own or the nearest colour the format offers (FIG, DXF and MIF give holes the background colour), a path that starts at the list's start, visits points lying on each spline in order of increasing parameter closely enough to follow its curve, and passes through every spline end, all to the format's coordinate resolution. In FIG a list never lies below an earlier one it overlaps.",
 ["inputs", "configurations"], "all structurally sound spline sets, any colours, frame sizes and dpi",
 "None of these formats is written by any test.",
 ["src/output-fig.c", "src/output-dxf.c", "src/output-plt.c", "src/output-mif.c", "src/output-ild.c", "src/output-ugs.c"],
 [("B-spline evaluation", "src/output-dxf.c bspline_to_lines"), ("fixed step sampling", "src/output-plt.c, src/output-mif.c"), ("distance dependent sampling", "src/output-ild.c drawCubicBezier"), ("cubic to quadratic split", "src/output-ugs.c")],
 ["bytes written by at_splines_write"])

prop("C19", "Every length, count and offset recorded in an output file is true",
 "In every file written, all sizes, counts, offsets and bounding frames stored in the file agree with its contents: PDF stream length, object offsets and cross-reference position, EMF file size, record count, record sizes and object handles, IFF chunk lengths, CGM element lengths, ILDA point counts and last-point flags, FIG, ER and POV point counts, MIF point counts and colour references, and the frame size equals the bitmap's. Headers, sections, groups and trailers are present and closed exactly once, and every object, colour, layer or procedure referred to exists and does what its use requires.",
 ["inputs", "configurations"], "all structurally sound spline sets including the empty one, any number of lists and colours, any name",
 "No test parses any output structure; only one SVG is compared.",
 ["src/output-pdf.c", "src/output-emf.c", "src/output-dr2d.c", "src/output-cgm.c", "src/output-ild.c", "src/output-fig.c", "src/output-er.c", "src/output-pov.c", "src/output-mif.c", "src/output-dxf.c", "src/output-eps.c"],
 [("two-pass size computation", "src/output-emf.c GetEmfStats, src/output-pdf.c"), ("chunk sizes", "src/output-dr2d.c"), ("point counts", "src/output-ild.c, src/output-pov.c")],
 ["bytes written by at_splines_write"])

prop("C20", "The command reports failure by exit status and message, success only if done",
 "For every command line the autotrace program ends normally: status 0 only if the requested output was completely written or the requested information printed, and otherwise a non-zero status with a message on standard error. An unreadable or unsupported input, an unknown option or format, an unwritable output and a full device are all failures, and no signal or sanitizer report ever ends the program.",
 ["inputs", "fault_sequences", "configurations"], "any combination of documented options with valid and invalid values, names with and without suffixes, missing, empty, damaged and foreign inputs, unwritable and full outputs",
 "Tests run five successful command lines and look at their exit status.",
 ["src/main.c", "src/atou.c", "src/cmdline.h", "src/filename.c", "src/color.c", "src/input.cpp", "src/output.cpp"],
 [("getopt error exit", "src/main.c read_command_line"), ("exception handler", "src/main.c exception_handler"), ("FATAL macro", "src/logreport.h")],
 ["exit status", "stderr", "output file"])

prop("C21", "Each command-line option has exactly its documented effect",
 "The file the command writes is byte-identical to what the library produces for the same input with the option values given on the command line and the defaults for all others; repeated options take the last value, and a drawing sent to standard output is what the library writes for an empty file name. Input format, output format, character code, dpi, background colour and every fitting option each reach the step they belong to.",
 ["configurations", "inputs"], "random combinations of all documented options over images for which each option changes the result",
 "Tests use -output-file and -centerline only.",
 ["src/main.c", "src/cmdline.h", "src/atou.c", "src/color.c", "src/autotrace.c"],
 [("long option table", "src/main.c read_command_line"), ("ARGUMENT_IS chain", "src/main.c")],
 ["output bytes of the command and of the library"])

prop("C22", "File formats are selected by the last suffix, ignoring case",
 "Looking up a reader or writer by suffix succeeds for exactly the formats listed by the program, in any letter case, and by file name uses the text after the last dot of its final component; unknown, empty and missing suffixes give no handler and never crash. Repeated initialisation and lookups always give the same handler, and each handler reads or writes its own format.",
 ["inputs", "histories"], "all strings up to the bound as suffixes and file names, including dots in directories, no dot, trailing dot and mixed case",
 "Tests only use .pbm, .bmp and .svg in lower case.",
 ["src/input.cpp", "src/output.cpp", "src/module.c", "src/main.c"],
 [("lower-cased map key", "src/input.cpp, src/output.cpp"), ("registration", "src/module.c at_module_init")],
 ["handlers returned", "bytes written through them"])

prop("C23", "The C++ wrapper is equivalent to the C interface",
 "Options objects of the C++ wrapper survive conversion to JSON and back unchanged, take every valid JSON member and ignore missing or ill-typed ones, and copies and builders do not share or leak storage. Producing output through the wrapper writes the same bytes as the C interface with the same options, and any input that cannot be read or output that cannot be made yields an error result instead of a crash.",
 ["inputs", "configurations", "histories"], "random option values, arbitrary JSON values, valid and damaged input files, copy and assignment sequences",
 "Nine unit tests check one set of values each way; produceOutput is never called.",
 ["src/wrapper/FittingOptions.cpp", "src/wrapper/InputOptions.cpp", "src/wrapper/OutputOptions.cpp", "src/wrapper/InputOptionsBuilder.cpp", "src/wrapper/FittingOptionsBuidler.cpp", "src/wrapper/autotrace.cpp", "src/wrapper/Json/JsonHelper.cpp"],
 [("toJson / JSON constructors", "src/wrapper/FittingOptions.cpp"), ("deep copy of the colour", "copy constructors"), ("expected<void,string>", "src/wrapper/autotrace.cpp")],
 ["option values", "output bytes", "expected result"])

prop("C24", "Outlines depend on which pixels are equal, not on the colour values",
 "Without colour reduction and despeckling, replacing the colours of a bitmap by other colours one to one, background included, changes nothing in the traced splines but the colours themselves, replaced in the same way. A grey image traced as one plane and as three equal planes gives the same splines in outline mode.",
 ["inputs", "configurations"], "all images up to the size bound, all one-to-one recolourings, outline and centerline",
 "Each test image is traced in its own colours only.",
 ["src/pxl-outline.c", "src/autotrace.c", "src/color.c", "src/thin-image.c"],
 [("colour comparison", "src/autotrace.c at_bitmap_equal_color, src/color.c at_color_equal"), ("thinning per colour", "src/thin-image.c")],
 ["at_splines_type of both traces"])

prop("C25", "Concurrent reads and traces do not interfere",
 "After initialisation, reading different files (other than GF fonts) and tracing different bitmaps at the same time in different threads with separate options involves no data race. Each thread obtains the same bitmap, splines and messages as when it runs alone.",
 ["schedules", "inputs", "configurations"], "up to eight threads, all readers but GF, outline and centerline with and without background colour, despeckling and colour reduction, randomised start order",
 "The program and tests are single-threaded.",
 ["src/autotrace.c", "src/thin-image.c", "src/fit.c", "src/pxl-outline.c", "src/median.c", "src/despeckle.c", "src/epsilon-equal.c"],
 [("no writable static state on the tracing path", "tracing sources")],
 ["splines and bitmaps of each thread", "race detector"],
 [("thinning background", "colour deleted pixels become", "src/thin-image.c")])

prop("C26", "Preserved line widths are those of the strokes traced",
 "On a white background with preserved widths, the width stored at every spline end of a centerline is non-negative and at most the width weight factor times the greatest distance of a stroke pixel from the background or the image border. For black strokes without smoothing it is the factor times that distance at the pixel or in its immediate neighbourhood; without preserved widths every stored width is zero.",
 ["inputs", "configurations"], "strokes of every thickness up to the bound, every position including the image border, any weight factor, grey and colour",
 "No test uses preserved widths.",
 ["src/image-proc.c", "src/fit.c", "src/autotrace.c", "src/output-er.c"],
 [("two-pass distance transform", "src/image-proc.c new_distance_map"), ("neighbourhood maximum", "src/fit.c fit_curve_list")],
 ["z coordinates of the splines returned"])

prop("C27", "A drawing is traced the same whatever lies elsewhere in the image",
 "With a background colour and without colour reduction, despeckling and preserved widths, enlarging an image at its right and top sides by background and by other drawings at least four pixels away leaves the lists of the original drawing bit-identical and in the same order; for centerlines (of drawings off the image border) this holds for the thinned bitmap too. Moving a drawing within the background changes neither the number of its lists nor their order, colours and directions.",
 ["inputs", "configurations"], "all images up to the size bound, all surrounding drawings and sizes, all fitting options, outline and centerline",
 "Every test image is traced by itself.",
 ["src/pxl-outline.c", "src/thin-image.c", "src/fit.c"],
 [("marking of visited edges", "src/pxl-outline.c is_marked, mark_edge"), ("coordinates counted from the bottom", "src/pxl-outline.c add_outline_pixel"), ("thinning passes until nothing changes", "src/thin-image.c thin1, thin3")],
 ["at_splines_type of both traces", "thinned bitmaps"])

prop("C28", "Shapes with horizontal and vertical edges keep exactly their corners",
 "When every edge of every region is horizontal or vertical and at least as long as the corner search distance, regions do not touch at corners only, the corner threshold exceeds 90 degrees and adjacent corners are kept, each outline consists of straight lines leading exactly from one corner of its region to the next. This holds whatever the smoothing, error, line and tangent settings are.",
 ["inputs", "configurations"], "all such images up to the size bound, all settings within the stated ranges",
 "The test images contain a few shapes, compared with stored output for one set of options.",
 ["src/fit.c", "src/pxl-outline.c", "src/curve.c", "src/vector.c"],
 [("corner detection by angle over a surround", "src/fit.c find_corners, find_vectors"), ("line between corners", "src/fit.c fit_one_spline, spline_linear_enough"), ("smoothing keeps curve ends", "src/fit.c filter")],
 ["at_splines_type"])

prop("C29", "Smooth shapes are traced by smooth curves",
 "The outline of a filled ellipse or elliptical ring, at least nine pixels in radius and traced with at least one smoothing pass, a corner and tangent distance of at least three pixels, a corner threshold of at most 100 degrees and an error threshold of at least one pixel, consists only of cubic splines that join without a bend. It stays within the error threshold plus half a pixel of the ellipse.",
 ["inputs", "configurations"], "radii, centres, ratios and rings at random sub-pixel positions, all settings in the stated ranges",
 "No test looks at joints or at shapes with a known curve.",
 ["src/fit.c", "src/spline.c", "src/curve.c", "src/vector.c"],
 [("tangents at joints", "src/fit.c find_tangent"), ("least-squares fit and subdivision", "src/fit.c fit_one_spline, find_subdivision"), ("cyclic curves", "src/fit.c fit_curve_list")],
 ["at_splines_type"])

prop("C30", "Bitmaps and colours read back exactly what was stored",
 "A new bitmap has the width, height and planes asked for and is empty, a copy is equal and separate, and every pixel reads back, and compares equal only to, the colour stored (grey for one plane); asking without bitmap or colour does nothing and finds nothing equal. A string is a colour exactly when it consists of six hexadecimal digits of either case, which give red, green and blue; colours are equal exactly when all three parts are, and their luminance is the weighted sum of the parts to the nearest whole number.",
 ["inputs"], "all sizes and planes up to the bound, all pixels at the borders and random ones, arbitrary strings and colour pairs",
 "No test calls these functions with values at their limits.",
 ["src/autotrace.c", "src/input.h", "src/color.c"],
 [("at_color_parse", "src/color.c"), ("pixel addressing", "src/input.h AT_BITMAP_PIXEL, src/autotrace.c at_bitmap_get_color")],
 ["values returned by the bitmap and colour functions"])

prop("C31", "Formats added by the caller are found, stay, and get exactly the call made",
 "A reader or writer registered for a suffix is found under it in any letter case from then on: registering the same suffix again, in any case, changes nothing, handlers found earlier stay valid however many formats are added, the program's own formats are unaffected, each is listed once with its description, and a registration without suffix, description or function is refused. Reading or writing through it calls its function exactly once with the caller's name (empty if none), stream, options (the defaults if none), splines and message callback and the frame 0, 0, width, height, and the bitmap it returns is the one the caller receives.",
 ["histories", "inputs"], "all sequences of registrations, repeated and incomplete registrations, lookups, reads and writes up to the bound",
 "No test adds a format; what holds after the first registration can fail after the hundredth or in another letter case.",
 ["src/input.cpp", "src/output.cpp", "src/autotrace.c"],
 [("registration and lookup", "src/input.cpp, src/output.cpp"), ("dispatch", "src/autotrace.c at_bitmap_read, at_splines_write")],
 ["arguments and results of registered functions", "handlers returned by lookups", "the printed lists of formats"],
 [("formats", "suffix, description and function of every registered format", "src/input.cpp inputFormatMap, src/output.cpp outputFormatMap")])

prop("C32", "The line thresholds only decide which pieces are straight",
 "Whatever the line threshold and the line-reversion threshold are, a bitmap traced with otherwise equal options gives the same lists, the same piece ends and, for pieces that stay curves, the same control points; raising either threshold never turns a line into a curve. A piece is a line exactly when its curve's mean distance from its chord is below the line threshold (or half the squared chord if that is less), and, when the pieces between the same two corners include a curve, also not above the reversion threshold.",
 ["inputs", "configurations"], "all bitmaps and fitting options up to the bound, with five pairs of thresholds each; distances are compared up to a margin for the unknown sample points",
 "Needs the same bitmap traced with several thresholds and the curve that a line replaced; no test compares two traces.",
 ["src/fit.c"],
 [("line decision", "src/fit.c spline_linear_enough"), ("reversion", "src/fit.c change_bad_lines")],
 ["spline lists returned by tracing"])

prop("C33", "Callbacks may use the library themselves",
 "A trace, read (other than of GF fonts) or write whose message, progress or cancel callbacks in turn trace, read or write gives the same splines, bitmap, bytes and messages as one whose callbacks do nothing, and every call made from a callback gives the same result as outside of it.",
 ["histories", "schedules"], "all placements of further calls at the callbacks of an outer call, up to six per outer call and one level deep",
 "State shared between calls shows only when a call starts while another is unfinished, which no test does.",
 ["src/autotrace.c", "src/fit.c", "src/pxl-outline.c", "src/thin-image.c", "src/median.c", "src/input-bmp.c", "src/input-tga.c", "src/input-png.c", "src/input-pnm.c", "src/output-fig.c", "src/output-pov.c"],
 [("callbacks during tracing", "src/pxl-outline.c, src/fit.c"), ("messages of readers and writers", "src/exception.c")],
 ["results of outer and inner calls", "messages"],
 [("unfinished call", "everything a call keeps between its callbacks", "static variables and parameters of the tracing, reading and writing modules")])

prop("C34", "Despeckling, colour reduction and thinning are separate stages, in this order",
 "A trace with despeckling, colour reduction and centerline thinning leaves in the caller's bitmap exactly what one trace that only despeckles, a second that only reduces colours and a third that does neither leave, and the splines are those of the third; a trace with none of them leaves the bitmap unchanged. A thinned bitmap traced again without preserved widths stays as it is and gives the same splines.",
 ["inputs", "configurations"], "all bitmaps of one or three planes and all combinations of the preprocessing and fitting options",
 "The tests compare single results of fixed option sets; what a stage hands to the next one, and that no stage sees more than the pixels left by the stages before, needs the same bitmap traced in steps.",
 ["src/autotrace.c", "src/despeckle.c", "src/median.c", "src/thin-image.c", "src/pxl-outline.c", "src/fit.c"],
 [("sequence of stages", "src/autotrace.c"), ("despeckling", "src/despeckle.c"), ("colour reduction", "src/median.c"), ("thinning", "src/thin-image.c")],
 ["the caller's bitmap after each trace", "the splines returned"],
 [("bitmap", "the pixels each stage leaves for the next", "the caller's bitmap")])
prop("C35", "A drawing is written as the same bytes to any stream, which stays open",
 "Writing the same splines with the same name and options produces the same bytes and messages whether the stream is a new file, a file with older contents, opened for appending, a pipe, a stream without positions, and whatever its buffering. Bytes written to the stream before stay, the stream is left open right after the drawing, and what the caller writes next follows it.",
 ["inputs", "configurations"], "all formats, spline sets, names and options, and all kinds of streams listed, with any amount of bytes before",
 "Tests write to fresh regular files only; writers that go back in the stream, count positions from its start or keep their own handle differ only elsewhere.",
 ["src/autotrace.c", "src/output-pdf.c", "src/output-dr2d.c", "src/output-cgm.c", "src/output-emf.c", "src/output-ild.c", "src/output-eps.c", "src/output-svg.c"],
 [("sizes and offsets computed before or while writing", "src/output-dr2d.c, src/output-pdf.c, src/output-emf.c")],
 ["the bytes that arrive", "the stream's position and state", "messages"],
 [("stream", "position, buffering and what was written before", "the caller's stream")])
prop("C36", "Options of stages that are off have no effect",
 "Tracing gives the same pixels and splines whatever the despeckling tightness and noise removal are while despeckling is off, and whatever the width factor is while widths are not preserved or centerline tracing is off; outline tracing does not depend on the preserve-width setting nor, without colour reduction, on a background colour that no pixel has, and no trace depends on the character code. Reading depends on the character code for GF fonts only and on the background colour for PNG files only, and writing depends on the resolution for MIF and DR2D only and on the width factor only if widths are preserved along centerlines.",
 ["inputs", "configurations"], "all bitmaps, files and spline sets, and all values of the options that do not apply",
 "Tests vary one option at a time in the mode it belongs to; that it is ignored everywhere else is a statement about all other modes.",
 ["src/autotrace.c", "src/fit.c", "src/despeckle.c", "src/image-proc.c", "src/input-png.c", "src/input-gf.c", "src/output-mif.c", "src/output-dr2d.c", "src/output-er.c"],
 [("choice of stages", "src/autotrace.c"), ("widths", "src/fit.c, src/output-er.c"), ("options of readers and writers", "src/input-gf.c, src/input-png.c, src/output-mif.c")],
 ["pixels, splines, bytes and messages"],
 [("options", "fields that no active stage uses", "the caller's option structures")])
prop("C37", "Font characters keep code, size and place in UGS",
 "When a character is read from a GF font, traced and written as UGS, the symbol has the character's code, the font's design size in pixels rounded to a whole number, and the character's advance width. Its paths start and end where the traced outlines do, moved by the leftmost column and lowest row that are black in the font, and the left bearing, right bearing, ascent and descent agree with the dots written and the black part of the character.",
 ["inputs", "histories"], "all GF fonts, characters, positions, advance widths and design sizes, and sequences of characters read and written in turn",
 "The metrics travel from the reader to the writer beside the bitmap, and are corrected for blank rows and columns; tests read and write formats separately.",
 ["src/input-gf.c", "src/output-ugs.c"],
 [("character metrics and cropping", "src/input-gf.c"), ("bearings and dots", "src/output-ugs.c")],
 ["the symbol, metrics and dots in the UGS file"],
 [("metrics of the last character", "code, size, advance and box handed from reader to writer", "src/output-ugs.c")])
prop("C38", "The error threshold only divides pieces further; corners stay",
 "Tracing a bitmap with a smaller error threshold and otherwise equal options gives the same lists with the same colours, directions and start points; every piece end is still there, in the same order, and a piece that is not divided further keeps its control points if it is a curve both times. The corners at which an outline is always divided, that is the piece ends left when the error threshold is beyond all distances, are the same points whatever the smoothing, tangent and line settings are.",
 ["inputs", "configurations"], "all bitmaps, option combinations and pairs of error thresholds",
 "It relates several traces of the same bitmap; a reference output pins one.",
 ["src/fit.c"],
 [("division at the worst point", "src/fit.c"), ("smoothing between corners", "src/fit.c"), ("tangents at division points", "src/fit.c")],
 ["splines returned by tracing"])
prop("C39", "Removing adjacent corners removes only corners beside others",
 "Tracing with adjacent corners removed and otherwise equal options, with an error threshold beyond all distances so that pieces lead from corner to corner, gives the same outlines starting at the same corner. Except for the last corner of an outline, its corners are among those found without the option, a corner that is gone was next to another on the outline, and no two corners in a row are neighbouring points; a straight stroke one pixel wide has fewer corners than without the option.",
 ["inputs", "configurations"], "all bitmaps and all combinations of the other options in outline mode",
 "The effect shows only in outlines with corners beside one another and by comparing two traces.",
 ["src/fit.c"],
 [("corner list", "src/fit.c"), ("removal of adjacent corners", "src/fit.c")],
 ["splines returned by tracing"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
