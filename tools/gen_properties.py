import json, os
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=None,obs=None):
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if obs: d['anchors']['observe_at']=obs
    d['anchors']['hook_needed']=None
    P.append(d)
NC="NewComposite result (radolan.go)"
p("C01","Hostile input never crashes, hangs or exhausts memory",
 "Reading a composite or an archive from any byte sequence whatsoever terminates and returns either a result or an error: it never panics and never loops forever. Memory use stays bounded by the size of the input (for archives, of its decompressed content) plus the largest grid the format can express (four decimal digits per dimension), however large, negative or inconsistent the numbers in the header are.",
 ["inputs","fault_sequences"],"all byte sequences: random bytes, mutated valid files, adversarial header numbers, corrupt archives",
 "Only two well-formed headers are ever parsed by tests and no data section at all; the malformed inputs are unbounded.",
 ["radolan.go","header.go","data.go","littleendian.go","runlength.go","singlebyte.go"],
 [("length check and per-field error returns","header.go:parseHeader"),("dimension range check","header.go:parseHeader"),("run overflow check","runlength.go:decodeRunlength")],obs=[NC,"NewComposites result"])
p("C02","Composite metadata is exactly what the header declares",
 "For every well-formed header the composite reports the declared product label, capture time (UTC, any valid calendar date and time), forecast time (capture time plus the declared forecast minutes, or the capture time itself if none are declared), interval (declared minutes; W1 to W4 declare tens of minutes), rows and columns, and format version. This does not depend on the order of the fields after the fixed-width start, on blank padding of numbers, on the radar-site number, or on which other fields (software version, station list, flags) are present.",
 ["inputs"],"all well-formed headers: every product label (except the two-character header field names themselves, which cannot begin a header unambiguously), every date in 2000-2068, time, forecast, interval, dimension pair, version, field order and field subset",
 "Two fixed headers are tested, one field order each; never a year or month boundary, a W product, or a local product.",
 ["header.go"],[("field splitting","header.go:splitHeader"),("field conversion","header.go:parseHeader")],obs=[NC])
p("C03","Malformed headers are rejected, never guessed around",
 "A header that lacks its terminator, is too short, does not begin with a product label, declares no total length or no dimensions (unless the product is a local one with known dimensions), or whose length, capture time, forecast, interval, dimensions, precision, level table or version is present but unreadable or out of range (zero, negative or unrepresentably large dimensions; impossible dates; a level table whose length does not match its count) makes reading fail with an error. A field is never silently replaced by a default or by the value of another field.",
 ["inputs"],"all headers with at least one defective mandatory or declared field, everything else valid",
 "No test feeds a malformed header; each rejection branch is unexercised.",
 ["header.go","data.go"],[("per-field error returns","header.go:parseHeader"),("empty trailing value","header.go:splitHeader")],obs=[NC+" error"])
p("C04","Two-byte pixels decode exactly and land on the right pixel",
 "In a two-byte encoded product each little-endian word gives one pixel: the low 12 bits scaled by ten to the declared precision, negative if and only if the sign flag (bit 15 of 16) is set, and NaN if and only if the no-data flag (bit 14 of 16) is set; the other two flag bits never change the value. Reflectivity (dBZ) products report half that value minus 32.5, all other units the value itself. Rows are stored south to north, so the last row of the stream is row 0 of the data, and columns run in stream order.",
 ["inputs"],"all 65536 words, all precisions, units and dimensions, all pixel positions",
 "The data parsers have no tests at all.",
 ["littleendian.go","conversion.go","data.go"],[("word decoding","littleendian.go:rvp6LittleEndian"),("vertical flip","littleendian.go:parseLittleEndian"),("precision scaling","conversion.go:rvp6Raw")],obs=[NC])
p("C05","One-byte pixels decode exactly and land on the right pixel",
 "In a one-byte encoded product each byte gives one pixel: NaN if and only if the byte is 250, otherwise the byte scaled by ten to the declared precision. Reflectivity (dBZ) products report half that value minus 32.5, all other units the value itself. Rows are stored south to north, so the last row of the stream is row 0 of the data, and columns run in stream order.",
 ["inputs"],"all 256 bytes, all precisions, units and dimensions, all pixel positions",
 "The data parsers have no tests at all.",
 ["singlebyte.go","conversion.go","data.go"],[("byte decoding","singlebyte.go:rvp6SingleByte"),("vertical flip","singlebyte.go:parseSingleByte")],obs=[NC])
p("C06","Run-length rows decode exactly, or the file is rejected",
 "In a run-length encoded product the newline-terminated rows run north to south; in each, after an ignored line-number byte, one or more offset bytes (each skipping its value minus 16 pixels, 255 meaning that another offset byte follows) are followed by run bytes whose high four bits give a count and whose low four bits give a class. Class k (1 up to the number of declared levels) is reported as the k-th declared level unchanged, and class 0, classes beyond the declared levels, and pixels not covered by any run are NaN. A row with an offset byte below 16 or with runs exceeding the row width makes reading fail with an error.",
 ["inputs"],"all level tables, row widths, offset chains, run sequences and overflow positions",
 "The data parsers have no tests at all.",
 ["runlength.go","header.go"],[("row decoding","runlength.go:decodeRunlength"),("level lookup","runlength.go:rvp6Runlength"),("level table parsing","header.go:parseHeader")],obs=[NC])
p("C07","The header alone selects the encoding; lengths must agree",
 "How the binary section is read depends only on the header: a declared level table (even an empty one) means run-length rows; otherwise the declared total length minus the header length must be exactly one byte per pixel (one-byte encoding) or exactly two bytes per pixel (two-byte encoding). Any other declared length is rejected with an error, whatever bytes follow, and the product label or the content of the binary section never influence the choice.",
 ["inputs"],"all combinations of declared length, dimensions (header-declared or local), level table presence, product and actual payload",
 "Tests stop at the header; encoding identification is never executed.",
 ["data.go","header.go"],[("encoding identification","data.go:identifyEncoding"),("declared length minus header length","header.go:parseHeader")],obs=[NC])
p("C08","Truncated or failing input is always reported",
 "If the input ends or the reader fails at any point before the last byte of the header and of the binary section (including the final row's newline in run-length products) has been delivered, reading fails with an error other than the unknown-unit warning. A composite with missing, zero-filled or invented pixels is never returned as a success.",
 ["inputs","fault_sequences","crash_points"],"every cut or fault position in every product, with end-of-file or any other reader error, delivered alone or together with the last bytes",
 "No test delivers a data section, a short read or a failing reader.",
 ["radolan.go","littleendian.go","singlebyte.go","runlength.go","header.go"],[("io.ReadFull","littleendian.go/singlebyte.go readLine*"),("ReadBytes error","runlength.go:readLineRunlength"),("ReadString error","header.go:parseHeader")],obs=[NC+" error"])
p("C09","The result does not depend on how bytes are delivered",
 "A complete input gives the identical composite and error however the reader splits it: one byte at a time, in arbitrary chunks, with occasional empty reads, with the end-of-file or an error arriving together with the last needed bytes or after them. Bytes following the complete binary section never change the result. The reader is only read from, never closed.",
 ["inputs","schedules","fault_sequences"],"all partitions of the input into reads, all trailing bytes",
 "Tests use a single in-memory reader and never read a data section.",
 ["radolan.go","littleendian.go","singlebyte.go","runlength.go"],[("buffered reader and full reads","radolan.go:NewComposite, io.ReadFull")],obs=[NC])
p("C10","Layers and point access agree with the plain data",
 "After reading, every row of the plain data has the declared width and every layer has the declared data height; if the plain height is a multiple of the data height, layer z is the z-th block of rows from the top, otherwise there is a single layer consisting of the bottommost rows. Two-dimensional data is layer 0 (the same storage), point access returns exactly the stored value for every valid coordinate, and NaN for every coordinate outside the data, however extreme, and for composites without data. No two rows or layers share storage.",
 ["inputs"],"all dimensions and local products (single layer, stripped elevation, twelve layers), all integer coordinates",
 "No test builds a composite with data or calls point access.",
 ["radolan.go","data.go"],[("layer slicing","data.go:arrangeData"),("bounds check","radolan.go:AtZ"),("row allocation","data.go:parseData")],state=[("DataZ/Data/PlainData","layered, 2D and plain views of one storage","radolan.go:Composite")],obs=["Composite.At/AtZ","Composite fields"])
p("C11","Product catalogue: units, local geometry, unknown-unit warning",
 "The data unit of a composite is determined by its two-character product label exactly as catalogued (mm, dBZ, km, m/s), for header-dimensioned and local products alike. A product whose unit is not catalogued is still read completely, and returned together with the dedicated unknown-unit error; no other outcome uses that error. Local products that declare no dimensions get their catalogued plain and data dimensions and report their catalogued resolution (1 or 2 km per pixel) after reading, without claiming a map projection.",
 ["inputs","configurations"],"all two-character product labels except the header field names themselves, with and without declared dimensions",
 "Only PG and FZ headers are tested and the unit is never checked; local products and unknown products are untested.",
 ["catalog.go","header.go","radolan.go","projection.go"],[("unit catalogue","catalog.go:unitCatalog"),("dimension catalogue","catalog.go:dimensionCatalog"),("ErrUnknownUnit","radolan.go:NewComposite"),("resolution kept","projection.go:calibrateProjection")],obs=[NC])
p("C12","Archives: every entry, in forecast order, or an error",
 "Reading a tar.bz2 archive returns one composite per entry, each identical to reading that entry on its own, ordered by ascending forecast time regardless of entry order, names, sizes, count or tar dialect; an archive without entries gives no composites and no error. If the compressed data is truncated or corrupt, or any entry cannot be read, the call returns an error and no composites; a partial list is never returned as a success.",
 ["inputs","fault_sequences","histories"],"all archives: entry counts, orders, products, capture and forecast times, tar formats, cut points and corruptions of the compressed stream",
 "No test reads an archive.",
 ["radolan.go"],[("entry loop and error propagation","radolan.go:NewComposites"),("sort by forecast time","radolan.go:NewComposites")],obs=["NewComposites result"])
p("C13","Spherical grids: geographic points map to the right pixel",
 "On the national, national-picture, extended-national, middle-european and DE1200 grids (format version below 5) every geographic point is mapped by the polar stereographic projection of the RADOLAN specification (sphere of radius 6370.04 km, true at 60N, centred on 10E), with the published north-west corner at (0, 0) and the published south-east corner at (columns, rows), x growing eastwards and y southwards. Inside and around the grid this agrees with the DWD pixel coordinate definition to within 30 metres, at every resolution of the same grid, and longitudes differing by 360 degrees map to the same point.",
 ["inputs","configurations"],"all latitudes and longitudes, all five grids, all bisected or doubled resolutions",
 "Tests check five points per grid with 100 m tolerance at one resolution; the full coordinate tables are missing from the repository, so that test fails.",
 ["projection.go","projection_sphere.go"],[("forward projection","projection_sphere.go:projectSphere"),("offset and scale calibration","projection.go:calibrateProjection"),("corner coordinates","projection.go:cornerPoints")],obs=["Composite.Project"])
p("C14","DE1200 in format 5 and later: WGS84 points map to the right pixel",
 "On DE1200 composites of format version 5 or later every geographic point on the northern hemisphere is mapped by the WGS84 ellipsoidal polar stereographic projection of the DWD definition (true at 60N, centred on 10E), with the published corners at (0,0), (columns,0), (columns,rows) and (0,rows) to within one metre, x growing eastwards and y southwards, at every resolution of the grid. Format versions below 5 keep using the spherical definition.",
 ["inputs","configurations"],"all latitudes and longitudes, all resolutions of the DE1200 grid, all format versions",
 "The one test checks the four corners at full resolution and version 5 only.",
 ["projection.go","projection_wgs84.go"],[("forward projection","projection_wgs84.go:projectWGS84"),("version switch","projection.go:calibrateProjection, cornerPoints")],obs=["Composite.Project"])
p("C15","Grid recognition and calibration follow from the dimensions",
 "A composite has a projection if and only if its data dimensions equal one of the five supported grids (900x900, 920x920, 900x1100, 1100x1200, 1400x1500 columns by rows) repeatedly halved or doubled in both directions, and, for format version 5 and later, only if that grid is the 1100x1200 one; product label and data content play no part, and a blank dummy and a parsed file of the same dimensions and version project identically. With a projection, the reported resolutions times the dimensions equal the extent of the grid in kilometres; without one, projecting yields NaN, and so do the resolutions unless the product is a local one with catalogued resolution.",
 ["inputs","configurations"],"all dimension pairs, format versions and product labels",
 "Tests construct seven known dimension pairs; no unknown or near-miss pair, no version above 5 on other grids, no parsed file.",
 ["projection.go","radolan.go"],[("grid detection by bisection","projection.go:minRes, detectGrid"),("calibration","projection.go:calibrateProjection")],obs=["NewDummy, NewComposite: HasProjection, Rx, Ry, Project"])
p("C16","Z-R relations convert both ways, exactly and monotonically",
 "For every relation Z = a * R^b with positive a and b, converting reflectivity (dBZ) to rain rate gives (10^(dBZ/10)/a)^(1/b), converting rain rate to reflectivity gives 10*log10(a*rate^b), and the two are inverse to each other within single precision. Both are monotonically increasing over the whole range, no-data (NaN) stays NaN, rate zero gives minus infinity, and the predefined relations use their published coefficients (256/1.42, 316/1.5, 300/1.5, 200/1.6). The NaN test recognises every NaN and nothing else.",
 ["inputs"],"all reflectivities and rates, all positive coefficient pairs and the four predefined relations",
 "One relation is tested at four points with 0.0001 tolerance.",
 ["conversion.go"],[("cached coefficients","conversion.go:NewZR"),("conversions","conversion.go:PrecipitationRate, Reflectivity")],obs=["PrecipitationRate, Reflectivity, NewZR, IsNaN"])
p("C17","Concurrent use is race free and gives the sequential results",
 "Any number of goroutines may at the same time read composites and archives, create dummies, and project, access, convert and render, including using the same composite for reading, without data races. Every result equals what the same call gives when executed alone.",
 ["schedules","histories"],"all interleavings of parsing, dummy creation, projection, access, conversion and rendering on private and shared composites",
 "Tests are sequential and the race detector is never on.",
 ["radolan.go","header.go","data.go","littleendian.go","runlength.go","singlebyte.go","projection.go","projection_sphere.go","projection_wgs84.go","conversion.go","radolan2png/vis/vis.go"],
 [("no mutable package state; read-only catalogues and projection parameters","catalog.go, data.go, projection_wgs84.go")],obs=["Go race detector reports","return values"])
p("C18","Results depend only on the call's own input, not on history",
 "Reading the same bytes, or making the same projection, access, conversion or colour call, gives the same result no matter what was read, rejected, computed or modified before in the same process. Composites never share storage with each other or with the input, so later reads, or changes a caller makes to one composite or to its input buffer, never alter another, and inputs and receivers are never modified by reading, projecting, accessing or rendering.",
 ["histories","inputs"],"all sequences of calls, successful or failing, interleaved with caller modifications",
 "Each test makes a handful of unrelated calls and never re-examines earlier results.",
 ["radolan.go","data.go","header.go","projection.go","conversion.go","radolan2png/vis/vis.go"],[("fresh allocation per composite","data.go:parseData, radolan.go:NewComposite"),("value receivers and pure functions","projection*.go, conversion.go")],obs=["all exported functions"])
p("C19","Colour gradients are opaque, bounded, ordered and mark no-data black",
 "Every gradient returns a fully opaque colour for every input; no-data (NaN) is black, and in heatmaps and graymaps so is everything below the minimum, while everything above the maximum has the maximum's colour. Between them the graymap brightens linearly in the compressed value from black to white, and the heatmap runs linearly in hue from blue (240 degrees) down by 330 degrees with lightness rising from 25 to 75 percent at full saturation. The radial map shows negative values in cyan and positive ones in red with brightness proportional to the compressed magnitude relative to the larger bound (saturating there), and magnitudes up to 1 in a pale full-brightness tone; the predefined maps use their documented ranges and compression (dBZ: default 1 to 75, Short 5 to 75, Wide -32.5 to 75; mm: Hour 0.1 to 100 and Day 0.1 to 200, logarithmic; m/s: 31.5, logarithmic).",
 ["inputs"],"all float values including NaN and infinities, all ranges and compressions, all predefined maps",
 "The vis package has no tests.",
 ["radolan2png/vis/vis.go"],[("gradient closures","vis.go:Heatmap, Graymap, Radialmap")],obs=["ColorFunc results"])
p("C20","An image shows every pixel of the chosen layer, and only that",
 "Rendering a layer gives an image of exactly the composite's columns by rows with origin (0,0), in which the pixel at (x, y) is the colour function applied to the value stored at (x, y) of that layer, for every composite, layer and colour function. A layer that does not exist gives a fully transparent image of the same size, and rendering never modifies the composite.",
 ["inputs"],"all composites (any dimensions, multi-layer, dummies), all layer numbers, all colour functions",
 "The vis package has no tests.",
 ["radolan2png/vis/vis.go"],[("pixel loop and layer check","vis.go:Image")],obs=["Image result"])
p("C21","radolan2png writes a faithful picture of the composite",
 "For every readable composite file with a catalogued unit the program exits successfully, prints product, unit, forecast time and (with a projection) the grid's extent in kilometres, and writes a PNG of exactly the data dimensions whose pixels are the unit's colours for layer 0: logarithmic heatmap from 0.1 to 100 mm (intervals up to one hour), 200 mm (longer) or 400 mm (a week or more), linear heatmap from 1 to 75 dBZ, linear gray from 0 to 15 km, radial velocity map. Only when the composite has a projection are pixels overpainted, and then exactly the German border points in yellow and on top of them the latitude/longitude mesh in green (along every whole degree from 1E to 15E and from 46N to 54N, in tenths of a degree), each in the pixel that contains the projection of its coordinate; points outside of the grid are not drawn.",
 ["inputs","configurations"],"all products, units, intervals, grids and encodings",
 "The program is only compiled, never run, by the tests.",
 ["radolan2png/radolan2png.go","radolan2png/borders.go","radolan2png/vis/vis.go"],[("colour map selection","radolan2png.go:convert"),("overlay drawing","radolan2png.go:convert")],obs=["process exit status, stdout, PNG file"])
p("C22","radolan2png fails loudly and leaves the output file untouched",
 "If the input cannot be opened or read as a composite (missing, truncated, malformed, or of a product with unknown unit) the program exits with a non-zero status and a message on standard error, creates no output file, and leaves an already existing output file byte for byte as it was. If the picture cannot be written the exit status is non-zero as well; without enough arguments it only prints its usage and touches nothing. In no case is a file other than the output created, changed or removed.",
 ["inputs","fault_sequences","crash_points"],"all unreadable inputs, cut points and unwritable outputs",
 "The program is only compiled, never run, by the tests.",
 ["radolan2png/radolan2png.go"],[("parse before create; fatal on error","radolan2png.go:convert, care")],obs=["process exit status, stderr, file system"])
p("C23","A call keeps to itself, and when it has returned it is over",
 "Reading, creating, projecting, accessing, converting and rendering have no effect besides their result. When a call has returned - successfully, with an error, or because its reader panicked or ended the goroutine - no goroutine of it remains, the reader is not touched again, and standard output and error, the log, environment, working directory, time zones, open files, files on disk, runtime settings and the exported variables are as before; the process is never ended. The memory in use does not grow with the number of calls whose results have been dropped. A call in progress, however long its reader blocks, never makes another call wait, not even one made from within a reader, a colour function or a compression.",
 ["histories","fault_sequences","schedules"],"all sequences of calls on sound and broken inputs, all ways a reader can end, all numbers of calls in progress or nested in each other",
 "Tests look at the results of a few calls only, never at what remains, and never use a reader that blocks, panics or makes calls itself.",
 ["radolan.go","header.go","data.go","projection.go","conversion.go","radolan2png/vis/vis.go"],
 [("no goroutines, locks or package state","radolan.go, header.go, data.go, projection*.go, vis.go"),("errors are returned, nothing is printed","radolan.go:newError")],obs=["runtime.NumGoroutine and stacks","reader calls","process state","memory statistics","all exported functions"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=True)+"\n")
