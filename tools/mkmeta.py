#!/usr/bin/env python3
"""Writes ../analysis/meta.json and ../MANIFEST.json from one description per property."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
AI = 'abstract interpretation of the compiler\'s MIR'
M = {}
def m(pid, technique, rule, explanation, note, assumptions=()):
    M[pid] = {'technique': technique, 'level': 'other', 'rule': rule, 'explanation': explanation, 'note': note, 'assumptions': list(assumptions)}
CASES = 'Each public function is summarised by path-sensitive abstract interpretation of its type-checked MIR (monomorphic, callees included, decoders and encoders of nested wire types kept as opaque calls): one case per control path, with the set of inputs that takes it and the result, stream position, emitted bits and field updates as terms over the input. '
FROZEN = 'The cases are then compared with the frozen case table of the variant (ref/*.json.gz, generated from the reviewed tree): every pair of a current and a frozen case whose input sets intersect must have equal outcomes on the intersection; terms that differ in form are only reported if a concrete valuation inside the intersection separates them. '
COUNT = 'The totals count functions, cases and overlapping pairs of cases of this run; "equal" pairs have identical terms, "sampled" pairs differ in form but no separating valuation was found; "undecided" lists what the analysis could not decide (never an alarm).'
m('C01', AI + '; writer summarised on each reader case and matched against the consumed stream', 'For each case in which a decoder accepts, the encoder is interpreted on the decoded value under the same path facts; what it emits must be, bit for bit and in order, what the decoder consumed, with zero on bits the decoder ignores.', CASES + 'The emitted terms are matched symbolically against the consumed stream. ' + COUNT, 'Covers all inputs of each accepted case, sequences up to 3 elements; numbers and texts with several spellings are compared by value.')
m('C02', AI + '; comparison with frozen layout tables', 'Every reader and writer of every wire type places, sizes, orders and conditions its fields as in the frozen layout table of its variant.', CASES + FROZEN + COUNT, 'All cases of all readers and writers of four variants; sequences up to 3 elements; the frozen table is the reviewed tree, not the published documents.')
m('C03', AI + '; code tables in both directions', 'The code an accepting decoder case requires is the code the alternative reports and is encoded with; code tables equal the frozen ones, including which codes are refused.', CASES + FROZEN + COUNT, 'All 2^n codes of each code field, as interval sets.')
m('C04', AI + '; reachability of panics', 'No case of a decoder or decoding entry point ends in a panic, for streams starting at each of the eight bit positions.', CASES + 'Arithmetic overflow, bounds, unwrap, slice and explicit panics are modelled as panic cases; a feasible one is reported. ' + COUNT, 'Sound up to the models of deku and std, sequences up to 3 elements before loops are joined, allocation failure excluded.')
m('C05', AI + '; reachability of panics, lost bits', 'No case of an encoder, constructor, conversion, accessor or update ends in a panic; no field or argument is used in part while its unused high bits may be set; no case that was refused is accepted.', CASES + FROZEN + COUNT, 'As C04. Known findings: conversions that unwrap, and PhyStatus::new.')
m('C06', AI + '; comparison with frozen cases and with the length format written as a rule', 'The length codec has exactly the four size classes with their value ranges and bit layout, and refuses the rest.', CASES + FROZEN + COUNT, 'All 2^32 lengths, as intervals.')
m('C07', AI + '; comparison with frozen cases', 'Compress, decompress, checked construction, reader and writer of compressed integers have the frozen cases (ranges, shifts, rounding, errors).', CASES + FROZEN + COUNT, 'All 2^32 values and both rounding modes, as intervals and bit-precise terms.')
m('C08', AI + '; length terms', 'In each encoder case, an emitted length of a buffered payload is followed by exactly that payload; readers use the announced length for untyped payloads as frozen.', CASES + FROZEN + COUNT, 'All payloads; nested payload encoders are opaque terms.')
m('C09', AI + '; failure injection at every fallible call', 'Every fallible stream, nested codec or conversion call is split into success and failure; a case in which one failed must return an error.', CASES + 'Each modelled fallible call contributes a failing branch, so every fault point on every path is a case. ' + FROZEN + COUNT, 'All fault points of all cases; a failure of deku itself is modelled as Err of that call.')
m('C10', 'dataflow on byte-order contexts in MIR, call-site query', 'No multi-byte integer is read or written without an explicit byte order and size; no native-endian conversion is called; no conditional compilation on the target.', CASES + 'A read or write of more than one byte whose context carries no byte order is recorded as an event of its case. Call sites and source conditions are enumerated. ' + COUNT, 'All cases, call sites and source files.')
m('C11', 'initialisation and drop typestate on MIR; query over unsafe operations', 'Per case: slots initialised = slots dropped if decoding fails inside the array, none dropped if it succeeds, none dropped twice, no uninitialised slot read or dropped; no unsafe callee outside the allowed list.', CASES + 'Each array slot carries an initialised/uninitialised state; drop glue is interpreted. ' + COUNT, 'All arrays in use, failure at each element; unsafe operations enumerated over all local functions.')
m('C12', 'effect analysis over all call sites in MIR', 'No local function calls or references a function with an outside effect (I/O, environment, time, randomness, threads, globals), or touches mutable or thread-local statics or addresses as numbers.', 'All call sites and function constants of all local function bodies (generic ones instantiated) are enumerated and matched against a list of effect sources; statics with interior or declared mutability are state. ' + COUNT, 'Effects inside deku and std functions not on the list are trusted.')
m('C13', AI + '; symbolic position accounting', 'In each accepting case the returned bit count equals the symbolic stream position advance; entry points return the remainder and refuse leftovers as in the frozen cases.', CASES + FROZEN + COUNT, 'All cases, symbolic positions.')
m('C14', AI + '; loop cases of the command codec', 'The command reader and writer have the frozen cases: end conditions, order, one nested codec call per action.', CASES + FROZEN + COUNT, 'Commands up to 3 actions exactly; longer ones through the repeated loop state.')
m('C15', AI + '; comparison with frozen cases', 'The look-ups on commands have the frozen cases over all action sequences up to 3.', CASES + FROZEN + COUNT, 'Sequences up to 3 actions.')
m('C16', AI + '; comparison with frozen cases', 'Constructors and conversions return the frozen terms over their arguments.', CASES + FROZEN + COUNT, 'All arguments; sequences up to 3.')
m('C17', AI + '; loop progress, type and call graph cycles', 'No loop revisits a state without progress, no repeated element can be decoded without consuming input, no wire type or function is recursive.', CASES + COUNT, 'All loops reached by any case; type graph and call graph complete.')
m('C18', AI + ' of the command line tool; event traces of every path', 'On every path of main: the given text, white space removed, is what is decoded from hexadecimal; the decoders called are, in order, those of the requested kind, on those bytes; a decoded value is printed, is the last attempt and ends in success; a bad text or no decoded value ends in failure; the kinds have their names.', 'main is interpreted with the command line left open and every decoder call split into success and failure, so each path is one sequence of events (text decoded, decoder called with which arguments, printed what, ended how) with the requested kinds that take it. The totals count paths, and pairs of path and requested kind.', 'All paths (the 47 file attempts unrolled); argument parsing by clap is trusted apart from the names of the kinds.')
m('C19', 'constant evaluation by the compiler; ' + AI, 'Every public constant has its frozen value, values in a group are distinct, is_err and friends have the frozen cases.', CASES + FROZEN + COUNT, 'All constants, all 256 status codes as intervals.')
m('C20', 'type checking of every feature selection (compile-fail witnesses with compiling twins); item tables per variant', 'Exactly the selections with one version build, in the library (with std and with alloc) and the tool; every public item exists in the frozen set of variants.', 'Each selection is type-checked by cargo; refusals must come from this crate. Public items (types, alternatives, fields, functions, constants) are read from the MIR dumps of four variants.', 'All 16 subsets of versions, shorthands; quick checks pairs for the tool.')
m('C21', AI + '; text terms', 'Fixed-width text readers and writers have the frozen cases: width, padding, stripping, truncation, invalid text.', CASES + FROZEN + COUNT, 'All texts by length class and symbolic bytes.')
m('C22', AI + '; field updates', 'Update functions assign the frozen terms to the frozen fields and nothing else.', CASES + FROZEN + COUNT, 'All values; sequences up to 3. Known finding: two query kinds do not update a length.')
m('C23', AI + '; output text terms', 'Display functions emit the frozen pieces in order, per case.', CASES + FROZEN + COUNT, 'Commands up to 3 actions.')
m('C24', 'constant evaluation and encoding size terms', 'Declared identifier selects the type in the file decoder; declared size equals the size of the encoding; constants are the frozen ones.', CASES + FROZEN + COUNT, 'All system file types.')
m('C25', AI + '; comparison with frozen cases', 'Equality, clone, default and order functions have the frozen cases (structural).', CASES + FROZEN + COUNT, 'All wire types, one level at a time (nested comparisons opaque).')
A = ['rustc (nightly) type-checks and lowers the source correctly; MIR of the pinned nightly stands for the program built with the stable compiler',
     'deku, bitvec and std behave as modelled in analysis/models.py (bit-level reader and writer, Vec, String, Option, Result, iterators, formatting)',
     'slices are shorter than 2^48 bytes and allocation succeeds', 'sequences are split into lengths 0 to 3; longer ones are covered only where a loop state repeats']
NA = {'C26': 'bounding allocation by input size needs a quantitative heap argument through deku\'s Vec growth and capacity policy; no static argument in reach bounds runtime bytes',
      'C27': 'conformance to the published documents has no oracle here: the documents are not available offline, and the code is the only statement of the layouts'}
PENDING = {}
def main():
    import sys
    for p in PENDING: NA[p] = PENDING[p]
    meta = {p: {k: d[k] for k in ('level', 'rule', 'explanation', 'assumptions')} for p, d in M.items()}
    meta['_'] = {'assumptions': A}
    json.dump(meta, open(os.path.join(V, 'analysis', 'meta.json'), 'w'), indent=1)
    checks = [{'property': p, 'quick_cmd': 'python3 check.py %s' % p, 'thorough_cmd': 'python3 check.py %s --thorough' % p, 'technique': d['technique'], 'level': d['level'], 'level_note': d['note']} for p, d in sorted(M.items()) if p not in NA]
    json.dump({'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': checks, 'not_applicable': [{'property': p, 'reason': r} for p, r in sorted(NA.items())],
               'notes': 'No hooks in /repo. The checks read /repo\'s source through a rustc driver (extractor/) and never run it.'}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
main()
