#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the text stays readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Packing then unpacking symbols returns exactly the same symbols",
 "For every supported bit rate (2, 3, 4, 6, 8, 10, 12 and 16), packing any sequence of symbols that each fit in that many bits and then unpacking the same number of symbols returns the original sequence, symbol for symbol. This holds for every sequence length, including lengths that do not fill the last packed group, and for lengths zero and one.",
 ["inputs"], "all sequence lengths n >= 0, all symbol values < 2^b, all eight bit rates b",
 "The tests pack one or two fixed arrays of a few symbols per rate; the remainder branches for most lengths modulo the group size, and lengths beyond a dozen symbols, are not reached.",
 ["bytepacker.h"], [("one pack/unpack routine per bit rate with a switch for the incomplete last group", "bytepacker.h: pack2..pack16, unpack2..unpack16"), ("run-time dispatch on the bit rate", "bytepacker.h: pack, unpack")],
 observe=["output arrays of pack/unpack"])

prop("C02", "Packing and unpacking never touch memory outside their exact buffers",
 "Packing n symbols of b bits writes only the first ceil(n*b/8) bytes of the destination and reads only the n symbols; unpacking writes exactly the n symbols and reads only the first ceil(n*b/8) bytes. The advertised buffer size for n symbols of b bits equals ceil(n*b/8).",
 ["inputs"], "all n >= 0 and all supported bit rates; all buffer contents",
 "The tests look for overflow at one length per rate with a sentinel in one position; an overrun at another remainder length or a read past the end is invisible to them.",
 ["bytepacker.h", "threadeddyscocolumn.cc"], [("loop limits computed from n by integer division and remainder switch", "bytepacker.h: pack*/unpack*"), ("buffer size formula", "bytepacker.h: bufferSize; used by threadeddyscocolumn.cc CalculateBlockSize/encodeAndWrite")],
 observe=["bytes around the buffers"])

prop("C03", "The packed format is a little-endian bit stream and other rates are refused",
 "In packed data, symbol i occupies bits i*b up to (i+1)*b of the buffer, counting from the least significant bit of the first byte, so that data written by one version can be read by any other. Asking to pack or unpack at a bit rate that is not supported raises an error and leaves the output untouched.",
 ["inputs", "configurations"], "all n, all symbols < 2^b, all supported b; all 32-bit values of b for the rejection",
 "The tests only pack and unpack with the same version of the code, so a change of the on-disk layout that is mirrored in both directions passes them; the rejection of unsupported rates is not tested at all.",
 ["bytepacker.h"], [("explicit shifts and masks per byte", "bytepacker.h: pack*/unpack*"), ("default branch of the dispatch", "bytepacker.h: pack, unpack")],
 observe=["packed bytes", "exception"])

prop("C04", "Quantization-table search finds the first entry not below the value",
 "Searching a strictly increasing table for a finite value returns the position of the first entry that is greater than or equal to the value, or the end position if every entry is smaller. This holds for each of the offered search methods, for every table size that method accepts, and the search never reads outside the table.",
 ["inputs"], "all strictly increasing tables of any size >= 2 (>= 1 where the method allows it), all finite values",
 "The tests compare the methods on tables of a handful of fixed values; power-of-two boundaries, sizes such as 2^b-1, and values equal to or adjacent to an entry are sampled at most.",
 ["dictionary.h"], [("branch-free search over power-of-two steps", "dictionary.h: lower_bound_branchless_two_minimum, lower_bound_branchless"), ("bisecting searches", "dictionary.h: lower_bound_two_minimum, lower_bound_one_minimum, lower_bound_slow")],
 observe=["returned position"])

prop("C05", "Plain quantization picks the interval of the value; non-finite is reserved",
 "Quantizing a finite value below the top boundary without dithering yields the index of the interval between consecutive boundaries that contains it, always a valid level index. Every non-finite value yields the single reserved symbol, no finite value within the level range yields the reserved symbol, and decoding gives the level of the symbol, or NaN exactly for the reserved symbol.",
 ["inputs", "configurations"], "all float values including NaN and infinities, every quantizer table (any size and distribution)",
 "The tests encode a few sampled values for one or two distributions; ties on boundaries, values outside the outer levels and infinities are not covered.",
 ["stochasticencoder.h", "dictionary.h"], [("boundary table lookup", "stochasticencoder.h: Encode"), ("level table lookup with the reserved slot one past the last level", "stochasticencoder.h: Decode"), ("reserved symbol", "stochasticencoder.h: QuantizationCount")],
 observe=["symbol", "decoded value"])

prop("C06", "Dithered quantization picks one of the two neighbours with unbiased odds",
 "Quantizing a finite value with dithering yields one of the two levels that bracket the value, the exact level when the value equals one, and the outermost level when the value lies outside the table. The upper level is chosen exactly for the dither values below the relative position of the value between the two levels times 2^31, so that the choice is monotone in the dither value and the mean over uniform dither values equals the input value; a non-finite value always yields the reserved symbol.",
 ["inputs", "configurations"], "all float values, all 2^31 dither values, every quantizer table",
 "The dithering test only compares a sample mean for a few fixed values within a generous tolerance; the selection threshold, ties and the extreme dither values are not observed.",
 ["stochasticencoder.h", "dictionary.h"], [("level lookup and threshold comparison", "stochasticencoder.h: EncodeWithDithering"), ("dither range", "stochasticencoder.h: GetDitherDistribution")],
 observe=["symbol as a function of value and dither"])

prop("C07", "Quantizer tables are increasing, finite and interleaved with a NaN reserve",
 "For every distribution and bit rate, the reconstruction levels are finite and strictly increasing, symmetric around zero, and each boundary lies between the two levels it separates, so that each level is quantized to itself. The last boundary admits every finite value up to the largest, and the reserved entry decodes to NaN.",
 ["configurations"], "all four distributions, all supported bit rates, all positive spread parameters",
 "The tests construct a few encoders and check round trips of sampled values, never the tables; one wrong level or boundary shows only as a slightly larger error.",
 ["stochasticencoder.cc", "stochasticencoder.h"], [("gaussian, uniform, Student-t and truncated gaussian tables", "stochasticencoder.cc: constructors and initialize*"), ("inverse error function by bisection", "stochasticencoder.cc: invCumulative")],
 observe=["decoded level of each symbol", "boundary of each symbol"])

prop("C08", "Compression keeps exactly the finite values finite and the rest non-finite",
 "After encoding a block of visibilities and decoding it again, a real or imaginary component is finite if that component was finite, and not finite if it was not; this holds for the row and the row-channel normalization in every position of the block. A sample without finite component never changes the scaling of other values, and a non-finite value never turns another value non-finite.",
 ["inputs"], "all block shapes, all placements of NaN and infinities, all finite magnitudes for which the scale factors and the scaled values stay within the float range",
 "The tests encode blocks without non-finite data (or a few zeros) at fixed shapes; no test places NaN or infinity in a block.",
 ["rftimeblockencoder.cc", "rowtimeblockencoder.cc", "stochasticencoder.h", "timeblockencoder.h"], [("maxima are taken over finite values only", "rftimeblockencoder.cc: maximizeRows, maximizeChannels; rowtimeblockencoder.cc: encode"), ("zero maxima give a unit factor", "rftimeblockencoder.cc, rowtimeblockencoder.cc")],
 observe=["decoded block"])

prop("C09", "Stored scale factors undo the normalization of the block",
 "For every sample of a block with two finite components, the normalised value that is quantized times the scale factors stored with the block equals the original sample, so that decoding is off by at most the quantization error times those factors. This holds for the row, row-channel and antenna-channel normalization (for the latter on cross-correlations with non-zero power).",
 ["inputs"], "all block shapes (rows, polarizations, channels, antenna numbering), all finite sample values, machine arithmetic taken as exact up to rounding",
 "The tests check an overall RMS accuracy on a few synthetic blocks with similar magnitudes and small shapes, which tolerates a wrong factor for some channel, polarization or antenna.",
 ["rftimeblockencoder.cc", "rowtimeblockencoder.cc", "aftimeblockencoder.cc"], [("factor multiplied into the data and its inverse stored", "rftimeblockencoder.cc: maximizeRows, maximizeChannels; rowtimeblockencoder.cc: encode; aftimeblockencoder.cc: changeChannelFactor, changeAntennaFactor, encode"), ("product of the stored factors on decode", "*: InitializeDecode, Decode")],
 observe=["meta data floats", "decoded block"])

prop("C10", "Normalization uses the full range and never clips",
 "After row or row-channel normalization no component of a finite sample of the block (a sample with two finite components) exceeds the largest quantization level in absolute value, and in every normalised row (or channel) that has a non-zero finite sample the largest absolute component that takes part in the scaling equals that level. The antenna-channel normalization likewise never leaves a component of a finite cross-correlation beyond the largest level.",
 ["inputs"], "all block shapes and all finite sample values up to rounding",
 "The dynamic-range test uses one synthetic block; clipping that occurs only for certain channels, signs or polarizations shows as an error below its tolerance.",
 ["rftimeblockencoder.cc", "rowtimeblockencoder.cc", "aftimeblockencoder.cc"], [("scaling by maximum level over maximum component", "rftimeblockencoder.cc: maximizeRows, maximizeChannels; rowtimeblockencoder.cc: encode; aftimeblockencoder.cc: fitToMaximum")],
 observe=["stored factors versus data maxima", "decoded block"])

prop("C11", "Block encoders use exactly the buffers they announce",
 "Encoding a block writes each of the announced number of scale factors and each of the announced number of symbols and nothing outside them, and every symbol is smaller than the quantization count. Decoding row r reads only the announced buffers, fills every sample of row r and changes no other row, and rows can be decoded in any order.",
 ["inputs", "histories"], "all block shapes, all data, all orders of decoding rows, all three normalizations",
 "The tests give the encoders generously filled buffers at fixed shapes and decode rows in order; an unwritten factor or a write past the end leaves the tests green.",
 ["rftimeblockencoder.cc", "rftimeblockencoder.h", "rowtimeblockencoder.cc", "rowtimeblockencoder.h", "aftimeblockencoder.cc", "aftimeblockencoder.h"], [("announced sizes", "*timeblockencoder.h: SymbolCount, SymbolsPerRow, MetaDataCount"), ("writes of meta data and symbols", "*timeblockencoder.cc: encode, Decode")],
 observe=["guarded buffers", "decoded rows"])

prop("C12", "Weights are kept within half a step and share the minimum over polarizations",
 "After compressing a block of finite, non-negative weights and decoding it, every polarization of a sample gets the minimum of its weights over the polarizations, off by at most half of the block maximum divided by the number of steps. Zero weights stay exactly zero, the block maximum is reproduced, and every symbol fits in the configured number of bits.",
 ["inputs", "configurations"], "all block shapes, all finite non-negative weights, all bit rates",
 "There is no unit test of the weight block encoder; the table tests store constant weights only.",
 ["weightblockencoder.h", "dyscoweightcolumn.cc", "dyscoweightcolumn.h"], [("minimum over polarizations, block maximum, rounding", "weightblockencoder.h: Encode"), ("scaled symbols", "weightblockencoder.h: Decode")],
 observe=["decoded weights", "symbols"])

prop("C13", "File headers read back exactly what was written, at a fixed layout",
 "Every field of the file header, column header and column-specific header that is written is read back with the same value, whatever the values. The fields are stored in the documented order in little-endian form. Column headers start exactly at the announced offset and each occupies exactly the number of bytes that it announces; the announced size of all headers together covers all of them, and the data begin there.",
 ["inputs", "configurations"], "all field values, all manager names of any length",
 "The tests reopen a table with one configuration and compare a few values; a swapped or narrowed field goes unnoticed when both directions change together.",
 ["header.h", "serializable.h", "dyscostman.cc", "threadeddyscocolumn.cc", "threadeddyscocolumn.h"], [("serialization of each field", "header.h: Header, GenericColumnHeader; threadeddyscocolumn.h: Header"), ("primitive readers and writers", "serializable.h"), ("offset computation", "header.h: calculateColumnHeaderOffset")],
 observe=["bytes of the file", "fields after reading"])

prop("C14", "Blocks and columns occupy disjoint file regions that hold what is written",
 "Within the file, the region of each column in each time block lies after the header, and no two such regions overlap; the region size of a column equals the number of bytes its encoder stores for a block. The row number maps to a block and a row within it in a one-to-one way, consistent with the first row of the block.",
 ["inputs", "configurations", "histories"], "all rows per block, antenna counts, shapes, bit rates, column combinations and block numbers within the file size limits",
 "The table tests write a handful of rows of one column configuration, where overlapping regions of several columns or of later blocks are not exercised.",
 ["dyscostman.h", "dyscostman.cc", "threadeddyscocolumn.cc", "dyscostmancol.h"], [("offset arithmetic", "dyscostman.h: getFileOffset, getBlockIndex, getRowWithinBlock, getRowIndex; dyscostman.cc: initializeRowsPerBlock, readCompressedData, writeCompressedData"), ("column block size", "threadeddyscocolumn.cc: CalculateBlockSize, encodeAndWrite")],
 observe=["file offsets of reads and writes"])

prop("C15", "A storage manager rebuilt from its own specification has the same settings",
 "The specification record that a storage manager reports can be given to a new manager, which then has the same bit rates, distribution with its parameters and normalization, for every configuration that can be set. A cloned manager has the same settings as its source, too.",
 ["configurations"], "all distributions, normalizations, bit rates and parameters",
 "The test checks one configuration (the default truncated gaussian); the others are never round-tripped.",
 ["dyscostman.cc", "dyscostman.h"], [("specification writer and reader", "dyscostman.cc: dataManagerSpec, setFromSpec"), ("copy constructor", "dyscostman.cc: DyscoStMan(const DyscoStMan&)")],
 observe=["data manager specification"])

prop("C16", "Unreadable or unsupported files and settings are refused",
 "Opening a file whose format version is not 1.0, whose number of columns differs from the table, or whose header cannot be read completely raises an error instead of returning data. A specification with a zero bit rate, an unknown distribution or an unknown normalization is refused, and so is using a manager without bit rates, creating a column of an unsupported type, or removing a row that is not the last.",
 ["inputs", "configurations"], "all version numbers, column counts, truncated files, and specification values",
 "No existing test opens a file with a wrong version or column count, or gives an invalid specification.",
 ["dyscostman.cc"], [("checks after reading the header", "dyscostman.cc: readHeader"), ("checks of the specification", "dyscostman.cc: setFromSpec, prepare"), ("checks on columns and rows", "dyscostman.cc: makeScalarColumn, makeDirArrColumn, makeIndArrColumn, removeRow")],
 observe=["exceptions"])

prop("C17", "The write cache loses, reorders and duplicates nothing under any schedule",
 "Whatever the interleaving of the caller and the encoding threads, every completed time block is encoded and written exactly once with the data that was put in it, a block that is still waiting to be written is never read from the file, two versions of a block are never in flight at once, and the shared cache is only accessed with its lock held. When the column is closed after the size of a time block has become known, all blocks have been written and no thread is left running or waiting.",
 ["schedules", "histories"], "all thread interleavings, all sequences of puts and gets",
 "The tests run with whatever schedule occurs and at most a few blocks, so that the cache is hardly ever contended.",
 ["threadeddyscocolumn.cc", "threadeddyscocolumn.h", "threadgroup.h"], [("mutex and condition variable around the cache", "threadeddyscocolumn.cc: storeBlock, getValues, EncodingThreadFunctor, stopThreads, isWriteItemAvailable")],
 state=[("write cache", "blocks that were completed but are not in the file yet", "threadeddyscocolumn.h: _cache")],
 observe=["file contents after closing", "lock state at accesses"])

prop("C18", "Reading a table returns the last values written to each row",
 "After any sequence of writes to rows of a compressed table (row after row for the first block, in any order afterwards), once the first time block is complete, reading a row, before or after closing and reopening the table, returns the values last written to that row up to the quantization error of its block. Rows whose block was never written read as zero, and writing one row or column does not change other rows by more than requantization.",
 ["histories", "configurations"], "all sequences of row writes and reads over any number of time blocks and columns, all shapes and settings",
 "The tests write one small table once, in order, and read it back.",
 ["threadeddyscocolumn.cc", "dyscodatacolumn.cc", "dyscoweightcolumn.cc", "dyscostman.cc", "timeblockbuffer.h"], [("current block buffer with write-back", "threadeddyscocolumn.cc: getValues, putValues, storeBlock, loadBlock"), ("row copy in and out of the buffer", "timeblockbuffer.h: SetData, GetData")],
 observe=["values read through the table"])

prop("C19", "The array container behaves as a sequence under all its operations",
 "After any sequence of construction, assignment, resizing, insertion, erasure, appending, swapping and moving, the container has exactly the size and the elements that the same operations give on a standard sequence, keeps the elements that the operation does not name, and has a capacity of at least its size. Resizing keeps the common prefix and a requested fill value fills exactly the new elements.",
 ["histories", "inputs"], "all operation sequences, all sizes and positions, all element values",
 "The container has no unit tests in this repository; only construction and resizing are exercised through other tests.",
 ["uvector.h"], [("begin/end/end-of-storage pointers and reallocation", "uvector.h: all operations")],
 state=[("begin, end and end of storage", "the element range and the capacity", "uvector.h")],
 observe=["size, capacity and elements"])

prop("C20", "The block buffer returns each row as it was stored",
 "Storing the samples and antennas of a row in a block buffer makes that row hold exactly those samples, grows the buffer just enough to hold the row, and leaves every other row as it was. Fetching a row copies out exactly its samples, and the highest antenna index reported is that over all rows.",
 ["inputs", "histories"], "all row indices, shapes, sample values and orders of storing",
 "The tests fill buffers in row order with the same shape and never compare other rows after a store.",
 ["timeblockbuffer.h"], [("row storage", "timeblockbuffer.h: SetData, GetData, MaxAntennaIndex, ConvertVector")],
 observe=["buffer rows"])

prop("C21", "The compression tool accepts exactly regular sets and loses no other column",
 "The compression tool refuses a measurement set whose time blocks have different numbers of rows, a different order of baselines, or different channel counts, before changing any data. For accepted sets, decompressing a compressed set restores all other columns unchanged, and samples that were flagged become not-a-number rather than influencing others.",
 ["inputs", "histories"], "all measurement sets",
 "The tools are not run by any test.",
 ["dscompress.cc", "decompress.cc", "stmanmodifier.h"], [("regularity check", "dscompress.cc"), ("column replacement", "stmanmodifier.h")],
 observe=["exit status and table contents"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
for p in P:
    assert len(p["title"]) <= 80, p["title"]
    assert p["statement"].count(". ") <= 2, p["id"]
print(len(P), "properties")
