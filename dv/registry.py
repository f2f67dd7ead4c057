"""Which proof modules and native checkers decide each property."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TITLES = {}
for l in open(os.path.join(HERE, 'properties.jsonl')):
    if l.strip():
        d = json.loads(l); TITLES[d['id']] = d['title']

TRUSTED = [
    'clang 18 front end and the opt-18 passes sroa, early-cse, simplifycfg, instcombine, inline, loop-simplify (produce the IR that is verified)',
    'dv/ir.py, dv/vc.py, dv/terms.py, dv/externs.py (IR parser, verification-condition generator, trusted contracts of external functions)',
    'z3',
]
COMMON_ASSUMPTIONS = [
    'partial correctness: termination is not proved (the native runs have a hang watchdog)',
    '64-bit size, index and pointer-difference arithmetic does not overflow (treated as mathematical integers); buffer sizes below 2^56',
    'distinct buffers and objects do not overlap (stated as preconditions)',
    'memory allocation succeeds; exception unwinding paths are not followed beyond the throw',
]

SE = ['stochasticencoder.cc', '-lgsl', '-lgslcblas']
BL = ['stochasticencoder.cc', 'rowtimeblockencoder.cc', 'rftimeblockencoder.cc', 'aftimeblockencoder.cc', '-lgsl', '-lgslcblas']
BA = ['the class invariant of StochasticEncoder holds (property C07), its highest level is positive', 'the scaling arithmetic is real arithmetic in the proof; rounding is checked natively within a tolerance, overflow of the float range is excluded',
      'UVector<double>::assign(first, last) has the contract of std::vector::assign (property C19)']
ST = ['dyscostman.cc', 'threadeddyscocolumn.cc', 'dyscodatacolumn.cc', 'dyscoweightcolumn.cc', 'stochasticencoder.cc', 'rowtimeblockencoder.cc', 'rftimeblockencoder.cc', 'aftimeblockencoder.cc', '-fno-access-control', '-lcasa_tables', '-lcasa_casa', '-lgsl', '-lgslcblas', '-lpthread']
CO = ['std::map, std::mutex, std::unique_lock, std::lock_guard, std::condition_variable, std::thread, casacore::Array and casacore::ScalarColumn have the contracts stated in dv/props/column.py; data races are excluded by lock obligations on the shared members, not by a memory model',
      'TimeBlockBuffer has the contract of property C20 (SetData, GetData, resize), encodeAndWrite and readCompressedData have those of C14',
      'an encoding thread does not throw (an I/O error while encoding ends the process); one user thread per column',
      'the size of a block is known before the column is closed (a table with a single time block is refused with an error, documented)', 'fewer than 2^30 cached blocks, 2^28 blocks in a file, 2^20 rows per block, antennas, polarizations and channels']
AFB = 'AFTimeBlockEncoder (antenna-channel normalization) is only checked natively, up to 20 rows, 4 polarizations, 30 channels, 10 antennas'
_LIST = {
    'C01': dict(proof=['packing'], native=[('packing', [])], native_s=12, san=False),
    'C02': dict(proof=['packing'], native=[('packing', [])], native_s=12),
    'C03': dict(proof=['packing'], native=[('packing', [])], native_s=12, san=False),
    'C04': dict(proof=['search'], native=[('search', [])], native_s=12),
    'C05': dict(asserts=True, proof=['quant'], native=[('quant', SE)], native_s=12, assumptions=['the class invariant of StochasticEncoder holds (property C07)']),
    'C06': dict(proof=['quant'], native=[('quant', SE)], native_s=14, assumptions=['the class invariant of StochasticEncoder holds (property C07)',
                'the relative position is computed in real arithmetic; its single-precision rounding is checked natively within a tolerance']),
    'C07': dict(proof=['tables'], native=[('quant', SE)], native_s=14, bounded='every configurable bit rate and distribution in single precision, native'),
    'C08': dict(proof=['blocks'], native=[('blocks', BL)], native_s=14, assumptions=BA),
    'C09': dict(proof=['blocks'], native=[('blocks', BL)], native_s=14, assumptions=BA, bounded=AFB),
    'C10': dict(proof=['blocks'], native=[('blocks', BL)], native_s=14, assumptions=BA, bounded=AFB),
    'C11': dict(proof=['blocks'], native=[('blocks', BL)], native_s=14, assumptions=BA, bounded=AFB),
    'C12': dict(proof=['weights'], native=[('weights', [])], native_s=12, assumptions=['the step computation is real arithmetic in the proof; its double-precision rounding is checked natively within a tolerance', 'weights are finite and not negative (precondition of the property)']),
    'C15': dict(proof=['settings'], native=[('settings', ST)], native_s=12, assumptions=['std::string, casacore::String and casacore::Record have the contracts stated in dv/strs.py (a record is a map from field names to typed values)',
                'bit rates below 2^31 (a casacore record holds signed integers)']),
    'C13': dict(proof=['headers'], native=[('headers', ST)], native_s=14, assumptions=['the file streams and std::string have the contracts stated in dv/streams.py and dv/strs.py; the machine is little-endian (scalars are written as their object representation)',
                'bit counts and the codes of distribution and normalization are below 256, block size and antenna count of a column below 2^32, names shorter than 2^20 bytes, fewer than 2^20 columns']),
    'C14': dict(proof=['layout'], native=[('layout', ST)], native_s=14, assumptions=['the file streams have the contracts stated in dv/streams.py', 'the block size of a file, the offset of a column and the header size are below 2^32, a file has fewer than 2^28 blocks',
                'number of rows per block, antennas, polarizations and channels below 2^20']),
    'C16': dict(proof=['settings', 'headers'], native=[('settings', ST)], native_s=12, assumptions=['std::string, casacore::String, casacore::Record and the file streams have the contracts stated in dv/strs.py and dv/streams.py',
                'a file with data has a nonzero block size']),
    'C17': dict(proof=['column'], native=[('history', ST)], native_s=40, assumptions=CO + ['the condition that a thread waits for is announced (notify_all) before the other side waits or ends: starvation by the scheduler is excluded']),
    'C18': dict(proof=['column'], native=[('history', ST)], native_s=40, assumptions=CO + ['decoding a block of the file gives the rows that were encoded, up to quantization (properties C01, C05, C08 to C12), at the place where they were stored (C14)',
                'the rows of the first time block are written one after the other (documented); before it is complete reads give zero (documented)']),
    'C19': dict(proof=['uvec'], native=[('uvec', [])], native_s=12, assumptions=['element type float (the code is a template over trivially copyable types; other element types are checked natively), std::allocator',
                'iterator ranges and initializer lists handed to an operation do not lie inside the container, as for std::vector; single-value arguments may', 'copy assignment, move assignment and swap are proved for two distinct containers; self-assignment is checked natively']),
    'C20': dict(proof=['buffer'], native=[('buffer', [])], native_s=10, assumptions=['the samples handed to SetData do not overlap the storage of the buffer']),
}
PROPS = {k: dict(v, title=TITLES[k]) for k, v in _LIST.items()}
NOTE = ('Every obligation (postconditions, loop invariants, bounds, frames) generated from the current source is discharged for all inputs and all iterations; '
        'a failed obligation is replayed with the bounded native checker. Trusted: clang/opt front end, dv/ engine, z3. ')
NOTES = {}
NOT_CLAIMED = {'C21': 'dscompress and decompress are main programs that act on whole measurement sets through casacore (Table, MeasurementSet, TiledColumnStMan): what they achieve is defined by casacore library code that has no contracts and cannot be brought into the verifier, so no contract within reach decides the property'}
for k in PROPS: PROPS[k]['note'] = NOTE + NOTES.get(k, '')
