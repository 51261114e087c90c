#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below (run by hand; both files are committed)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'proof_of_space/src/'
T = 'proof_of_storage/src/'
def P(id, title, statement, over, quant, why, files, mech, state, observe, hook=False):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], state=[] if state.startswith('none') else [dict(name=state, meaning='state the property speaks about', where=files[0])], observe_at=[observe], hook_needed=None))
PROPS = [
 P('C01', 'Byte and bit sequences convert losslessly in both directions',
   'Bytes expand to bits least-significant first, eight per byte, in order; bits pack back to bytes in the same order, a final partial byte being padded with zero bits. Packing the expansion of any byte sequence returns that sequence, and expanding a packing returns the original bits followed only by zero padding, for every length including the empty sequence.',
   ['inputs'], 'all byte sequences and all bit sequences of any length', 'a test samples a few lengths and values; the guarantee covers every length, alignment and byte value',
   [S + 'proof_of_space/convert.rs'], [('bytes_to_bits', S + 'proof_of_space/convert.rs'), ('bits_to_bytes', S + 'proof_of_space/convert.rs')], 'none (pure functions)', 'return values'),
 P('C02', 'Integers and bit sequences convert losslessly in both directions',
   'A bit sequence of up to 63 bits converts to the integer whose binary digits it is, least-significant first, without overflow; an integer converts to exactly the requested positive number of bits, its low-order binary digits zero-extended. The two conversions are inverse on every value that fits.',
   ['inputs'], 'all integers, all requested lengths of at least one, all bit sequences up to 63 bits', 'truncation and high-bit errors appear only for particular magnitudes and lengths',
   [S + 'proof_of_space/convert.rs'], [('bits_to_usize', S + 'proof_of_space/convert.rs'), ('usize_to_bits', S + 'proof_of_space/convert.rs')], 'none (pure functions)', 'return values'),
 P('C03', 'Marking the space stores every preimage in the slot of its delayed image',
   'After marking with any key, message and round constants, the slot of each index that is the low n bits of the delay function of key plus some x in 0..2^n holds, least-significant bit first, the largest such x followed by a set flag bit. Every other slot, every bit outside the slots and the length of the file are unchanged.',
   ['inputs', 'histories'], 'every key, message, constants and prior file content, for each slot width n', 'slots straddle byte boundaries at every alignment and collisions depend on the key; the statement is about all slots of all runs',
   [S + 'proof_of_space/prover.rs', S + 'proof_of_space/convert.rs', S + 'mimc/mimc_df.rs'], [('mark_space', S + 'proof_of_space/prover.rs')], 'the space file', 'file contents and length after the call'),
 P('C04', 'Responses are exactly the stored preimages of the first answerable challenges',
   'For every file and challenge list, the first response lists, in challenge order, the preimages stored in the challenged slots whose flag bit is set, together with the positions of those challenges, stopping at the configured number of responses, and the hash of exactly that list under the key. Challenges whose slot is not flagged contribute nothing, and the file is not modified.',
   ['inputs', 'histories'], 'every file content, challenge list of any length, key and constants, for each slot width n', 'the bit offset of a slot, its byte straddling and the cut-off position vary with data tests do not enumerate',
   [S + 'proof_of_space/prover.rs'], [('response_1', S + 'proof_of_space/prover.rs')], 'the space file (read only)', 'returned preimages, positions and hash'),
 P('C05', 'Preparing the space yields an all-zero file with room for every slot',
   'For every slot width n the prepared file consists only of zero bytes and has the smallest whole number of bytes that holds all 2^n slots of n+1 bits. Whatever the file contained before is discarded.',
   ['inputs', 'histories'], 'every slot width and every prior file content', 'rounding depends on n, and stale content only matters when the file existed',
   [S + 'proof_of_space/prover.rs'], [('prepare_space', S + 'proof_of_space/prover.rs')], 'the space file', 'file contents and length after the call'),
 P('C06', 'The delay functions compute their full-round Feistel permutation',
   'For every pair of field elements and every list of the prescribed number of round constants, the cubic and quintic delay functions return the left half of the prescribed number of Feistel rounds, each adding the power of left half plus round constant to the right half and swapping. A constant list of any other length is refused.',
   ['inputs'], 'all field elements and all constant lists', 'a wrong exponent, round order or dropped round agrees on special inputs; equality must hold on the whole field',
   [S + 'mimc/mimc_df.rs'], [('mimc3_df', S + 'mimc/mimc_df.rs'), ('mimc5_df', S + 'mimc/mimc_df.rs')], 'none (pure functions)', 'return values'),
 P('C07', 'The hashes compute the full-round keyed permutation chained over the input',
   'For every input, key and constants the quintic and septic hashes return the prescribed number of keyed power rounds plus the key. Over a list of any length the multi-input hash starts from the key and for each element in order adds the element and its hash under the running value.',
   ['inputs'], 'all field elements, all constants, all input lists of any length', 'order, chaining and key-feed errors vanish on short or symmetric lists',
   [S + 'mimc/mimc_hash.rs'], [('mimc5_hash', S + 'mimc/mimc_hash.rs'), ('mimc7_hash', S + 'mimc/mimc_hash.rs'), ('multi_mimc5_hash', S + 'mimc/mimc_hash.rs'), ('multi_mimc7_hash', S + 'mimc/mimc_hash.rs')], 'none (pure functions)', 'return values'),
 P('C08', 'An honest prover can always prove (circuit completeness)',
   'For every key, message, constants and list of preimages, when the public indices are the low bits of the delay function of key plus preimage and the public hash is the hash of the preimages under the key, the assignment the proof-of-space circuit computes satisfies all its constraints. Its public inputs are the key, the message, the indices in order and the hash, in this order.',
   ['inputs'], 'all keys, messages, preimages and constants in the field', 'a constraint off by one bit or a carry holds for most witnesses and fails for particular values',
   [S + 'circuit/pospace_circuit.rs'], [('constraint synthesis with assignments', S + 'circuit/pospace_circuit.rs')], 'constraint system under construction', 'satisfaction of the constraint system, public assignment'),
 P('C09', 'No false proof-of-space statement has a satisfying witness (circuit soundness)',
   'Every assignment that satisfies the proof-of-space constraints has, for each public index, a private preimage such that the index is the low bits of the delay function of the public key plus that preimage under the public message. The public hash is the hash of exactly these preimages under the same public key.',
   ['inputs', 'programs'], 'all assignments to all variables, honest or malicious', 'tests run the honest prover; a missing constraint is visible only to an assignment no honest run produces',
   [S + 'circuit/pospace_circuit.rs'], [('constraint synthesis', S + 'circuit/pospace_circuit.rs')], 'constraint system', 'set of satisfying assignments projected to public inputs'),
 P('C10', 'Key generation and proving describe the same proof-of-space circuit',
   'Synthesising the proof-of-space circuit without values, as key generation does, and with any values, as proving does, yields the same number of public and private variables and the same constraint matrices. The shape depends only on the number of preimages and the constants, never on the values.',
   ['inputs', 'programs'], 'all values of all inputs', 'a value-dependent branch in synthesis shows only for the values that take it, and then makes proofs unverifiable',
   [S + 'circuit/pospace_circuit.rs'], [('constraint synthesis in both modes', S + 'circuit/pospace_circuit.rs')], 'constraint system', 'variable counts and constraint matrices in setup and proving mode'),
 P('C11', 'The verifier accepts only a valid proof of the statement it was asked about',
   'Verification returns normally only if the pairing check itself answered true for exactly the public inputs key, message, the challenged indices at the responded positions in order, and the hash; an invalid proof, or an error of the check, is rejected. The prover proves, and key generation sets up, exactly this statement with these values in the same positions.',
   ['inputs', 'histories'], 'all proofs, keys, challenge lists and response lists of any length', 'tests only submit valid proofs, on which accepting everything looks the same',
   [S + 'proof_of_space/verifier.rs', S + 'proof_of_space/prover.rs'], [('verify', S + 'proof_of_space/verifier.rs'), ('response_2, construct_circuit', S + 'proof_of_space/prover.rs')], 'none', 'normal return of verification; arguments given to the proof system'),
 P('C12', 'Challenges are the requested number of in-range, unbiased indices',
   'Challenge generation returns exactly the requested number of challenges, each lying in the range of slot indices of the given width. Every index in the range can occur at every position, all bits being drawn independently.',
   ['inputs', 'histories'], 'all challenge counts, all widths up to 63, all outcomes of the random source', 'randomised output: a test sees a few draws, not the set of possible ones',
   [S + 'proof_of_space/verifier.rs'], [('create_challenges', S + 'proof_of_space/verifier.rs')], 'random source', 'returned challenge list'),
 P('C13', 'The building-block circuits accept every honest computation',
   'For the delay-function, hash, low-bits-equality and exponentiation circuits, the assignment computed from any private inputs satisfies every constraint, and the public inputs are the delay-function output, the hash, the low bits together with the full value, and the power respectively. Synthesis without values yields the same constraints as with values.',
   ['inputs'], 'all field elements, constants, bit patterns and difficulties', 'constraints over bit decompositions and round chains fail only on particular values',
   [S + 'circuit/mimc3_df_circuit.rs', S + 'circuit/mimc5_df_circuit.rs', S + 'circuit/mimc5_hash_circuit.rs', S + 'circuit/mimc7_hash_circuit.rs', S + 'circuit/equal_circuit.rs', S + 'circuit/pow_circuit.rs'],
   [('constraint synthesis', S + 'circuit/')], 'constraint system under construction', 'satisfaction, public assignment, matrices'),
 P('C14', 'The building-block circuits admit no false statement',
   'Every assignment satisfying the delay-function or hash circuit has as public output the delay function or hash of its private inputs; every assignment satisfying the equality circuit has as first public input the low bits of the decomposition of the second; every assignment satisfying the exponentiation circuit has as public output the base raised to the private exponent bits.',
   ['inputs', 'programs'], 'all assignments to all variables, honest or malicious', 'tests run the honest prover; unconstrained variables are invisible to it',
   [S + 'circuit/mimc3_df_circuit.rs', S + 'circuit/mimc5_df_circuit.rs', S + 'circuit/mimc5_hash_circuit.rs', S + 'circuit/mimc7_hash_circuit.rs', S + 'circuit/equal_circuit.rs', S + 'circuit/pow_circuit.rs'],
   [('constraint synthesis', S + 'circuit/')], 'constraint system', 'set of satisfying assignments projected to public inputs'),
 P('C15', 'The delay encoding of a unit is inverted exactly by its fast inverse',
   'For the primes the system uses and every unit whose value is below the prime, decoding the delay-encoded unit with the same prime, mode and number of rounds returns the unit, zero-padded to the encoded length, for each of the sloth implementations; encoded values stay below the prime. The number-theoretic step used (the quadratic-residue symbol) is the Jacobi symbol for every odd modulus, and the keys chosen are primes congruent to 3 modulo 4 of the promised size.',
   ['inputs'], 'all unit values below the prime, all round counts, all primes congruent to 3 modulo 4', 'the values where a square root, its parity or the sign goes wrong (zero, non-residues, values needing padding) are a few out of 2^512',
   [T + 'vde/sloth.rs', T + 'vde/rug_sloth.rs', T + 'vde/rug_vde.rs', T + 'proof_of_storage/postorage.rs'], [('sloth, sloth_inv', T + 'vde/sloth.rs'), ('sloth, sloth_inv (rug)', T + 'vde/rug_sloth.rs'), ('vde, vde_inv', T + 'vde/rug_vde.rs'), ('prepare_params', T + 'proof_of_storage/postorage.rs')], 'none (pure functions)', 'return values'),
 P('C16', 'Unsealing a sealed file restores it byte for byte',
   'For every padded file whose units have a zero top byte, every key and iv, and every choice of dependency modes, counts and seal rounds, running unseal on the file that seal produced with the same parameters restores exactly the bytes before sealing. Modular addition and subtraction of units are exact inverses for all operands below the key.',
   ['inputs', 'histories'], 'all file contents, keys, ivs, numbers of blocks, units and rounds, and legal dependency lists', 'a dependency read before instead of after it changed, or in the wrong order, matters only for particular shapes of dependency graph and number of rounds',
   [T + 'proof_of_storage/prover.rs', T + 'proof_of_storage/common.rs'], [('seal, unseal', T + 'proof_of_storage/prover.rs'), ('modadd, modsub', T + 'proof_of_storage/common.rs')], 'the sealed file', 'file contents after seal followed by unseal'),
 P('C17', 'Sealing binds every unit to all its dependencies, the iv and the previous block',
   'Sealing works block by block and round by round: each unit becomes the delay encoding of the unit plus, modulo the key, the hash of the concatenation of the units at the same position of its long-dependency blocks as already sealed, of its short-dependency units of the same block at their current values, and, for the first unit of a block, of the iv or of the id of the previous block. The returned block ids are the hashes of the sealed blocks in order.',
   ['inputs', 'histories'], 'all file contents, keys, ivs, numbers of blocks, units and rounds, and legal dependency lists', 'leaving a dependency out of both sealing and unsealing keeps the round trip intact; only the security meant by the design is lost',
   [T + 'proof_of_storage/prover.rs'], [('seal', T + 'proof_of_storage/prover.rs')], 'the sealed file', 'file contents after seal, returned block ids'),
 P('C18', 'Unsealing single blocks from a sealed file recovers their original units',
   'Preparing a range of blocks, or one block, reads from the sealed file exactly these blocks, the id of the block before each, and the blocks each depends on, and leaves the file unchanged. Unsealing what was prepared, sequentially or in parallel, yields for each block exactly the padded original units, in the order of the blocks, for every range of blocks and every dependency rule.',
   ['inputs', 'histories', 'schedules'], 'all file contents, keys and ivs; every range of blocks for the listed shapes', 'a wrong neighbour, a wrong base for an index or a chunk boundary shows only for particular blocks and ranges',
   [T + 'proof_of_storage/verifier.rs'], [('batch_unseal_prepare, single_unseal_prepare', T + 'proof_of_storage/verifier.rs'), ('batch_unseal, batch_unseal_parallel', T + 'proof_of_storage/verifier.rs')], 'the sealed file (read only)', 'returned blocks, ids, dependency blocks and unsealed units'),
 P('C19', 'Dependencies follow the documented rules and never reach a later block',
   'Long dependencies of block i name only blocks before i and short dependencies of unit i name only other units of the same block, at most the requested number, for every number of blocks and units, every index, count and mode. The deterministic modes produce exactly the documented index sequences, the random ones distinct ascending indices, and the tables of dependencies hold for every index the list of exactly that index.',
   ['inputs'], 'all indices, sizes and all seeds; counts enumerated for the deterministic modes', 'the boundaries (first blocks, counts beyond the available indices, powers of two beyond the word size) are off the beaten track, and a dependency on a later block makes the file unrecoverable',
   [T + 'proof_of_storage/depend.rs'], [('long_depend, short_depend', T + 'proof_of_storage/depend.rs'), ('long_mode_random, short_depend_random', T + 'proof_of_storage/depend.rs')], 'none (pure functions)', 'returned index lists'),
 P('C20', 'Padding, splitting and combining data lose nothing',
   'Splitting data into units and joining them gives back the data; padding a file appends one zero byte to every unit and compressing drops exactly the padding, so compressing a padded file gives the file back whatever the target held before, and the source files are unchanged. Exclusive-or of two byte strings covers the longer of the two.',
   ['inputs', 'histories'], 'all contents, any number of units, unit sizes enumerated', 'buffers are processed in pieces: errors show at the last piece, at particular sizes, or over an old longer file',
   [T + 'proof_of_storage/common.rs'], [('to_units_from_block, com_block_from_units, vecu8_xor', T + 'proof_of_storage/common.rs'), ('copy_and_pad, copy_and_compress', T + 'proof_of_storage/common.rs')], 'source and target file', 'return values, file contents and lengths after the call'),
 P('C21', 'Storage challenges are the requested number of distinct indices in range',
   'Challenge creation returns exactly the requested number of distinct indices in ascending order, all within the given range, whenever the range holds that many. Every index of the range can be drawn.',
   ['inputs', 'histories'], 'all counts and ranges, all outcomes of the random source', 'randomised output: a test sees a few draws, not the set of possible ones',
   [T + 'proof_of_storage/verifier.rs'], [('create_challenges', T + 'proof_of_storage/verifier.rs')], 'random source', 'returned index list'),
 P('C22', 'The verifier accepts unsealed blocks only if they equal the original data',
   'Verification of an unsealed block returns normally exactly if every unit of the block, without its padding, equals the corresponding bytes of the original file at that block, and fails otherwise. Unsealing and verifying what was read from a sealed file accepts exactly if the named blocks of the original equal the blocks that were sealed; no file is changed.',
   ['inputs', 'histories'], 'all file contents and block contents; block shapes at stated bounds', 'tests only submit matching data, on which comparing too little looks the same',
   [T + 'proof_of_storage/verifier.rs'], [('batch_verify', T + 'proof_of_storage/verifier.rs'), ('batch_unseal_and_verify', T + 'proof_of_storage/verifier.rs')], 'original file (read only)', 'normal return or failure of verification'),
 P('C23', 'Merkle proofs show exactly the challenged leaves of exactly the given file',
   'The tree of a file has one leaf per piece of the given size, the hash of exactly that piece, in order, and the root covers exactly these leaves. A proof is made for exactly the challenged indices, and its verification returns normally exactly if it checks against the given root, the challenged indices and the leaves at these indices; a forged, misplaced or out-of-range one is rejected.',
   ['inputs', 'histories'], 'all file contents, any number of leaves and challenges, leaf sizes enumerated', 'tests only verify honest proofs, on which ignoring the result or hashing the wrong piece twice looks the same',
   [T + 'proof_of_storage/merkle_tree.rs', T + 'proof_of_storage/postorage.rs'], [('generate_merkle_tree_from_file, generate_merkle_tree_from_data, generate_merkle_proof, verify_merkle_proof', T + 'proof_of_storage/merkle_tree.rs'), ('merkle_tree_proof', T + 'proof_of_storage/postorage.rs')], 'the file (read only)', 'leaves, tree, root and proof returned; normal return of verification'),
 P('C24', 'The sealing pipeline restores the original and publishes its key and iv',
   'Running the pipeline pads, seals and, when asked to, unseals and compresses a file such that the unsealed file equals the original byte for byte and the original is unchanged, whatever the target files held before, with the same parameters, key and iv throughout. The public data saved are the key and iv that were used, and loading returns exactly those saved last, whatever the file held before. Every preset parameter set is consistent: whole units in blocks, whole blocks in the file, one byte of padding per unit; and a random data file has exactly the requested length.',
   ['inputs', 'histories'], 'all parameters, keys and ivs, all prior file contents, all preset selectors and lengths', 'stale files, a second save over a first, or one of two calls with another parameter show only in particular histories',
   [T + 'proof_of_storage/postorage.rs', T + 'proof_of_storage/common.rs', T + 'proof_of_storage/verifier.rs'], [('save_data, load_data, seal_and_unseal', T + 'proof_of_storage/postorage.rs'), ('gen_posdata', T + 'proof_of_storage/common.rs'), ('create_random_file', T + 'proof_of_storage/verifier.rs')], 'origin, sealed, unsealed and public-data file', 'file contents after the calls, loaded key and iv'),
]
NA = {}
NOTE = {
 'C01': 'unbounded: every length and value; functions symbolically executed from MIR, loops by proved induction',
 'C02': 'complete: every admissible length of the first direction unrolled, every n of the second (1..64 unrolled, larger n by induction)',
 'C03': 'all keys, messages, constants and file contents; slot width n enumerated (1,2,3,5,8,20 quick; 1..24 thorough); the 2^n-iteration loop by proved induction',
 'C04': 'all files, challenge lists of any length, keys; slot width n enumerated; loop over challenges by proved induction',
 'C05': 'unbounded: every slot width up to 44 and every prior content; the filling loop by proved induction',
 'C06': 'unbounded: all field elements; the fixed number of rounds fully unrolled, equality as polynomials',
 'C07': 'unbounded: single-block hash as polynomials, multi-block by induction over the list using the single-block contract',
 'C08': 'all field values for each enumerated number of preimages (1,2,3 and the deployed 50 in quick)',
 'C09': 'all assignments for each enumerated number of preimages (1,2,3 and the deployed 50 in quick); decomposition modulo the field order is a listed known finding',
 'C10': 'all values for each enumerated number of preimages',
 'C11': 'unbounded in the number of responses and challenges; the proof system itself (Groth16) is trusted',
 'C12': 'unbounded in the number of challenges; widths 0..63 enumerated completely in thorough, a sample in quick; the random source is modelled as unconstrained independent draws',
 'C13': 'all field values; number of hash inputs and difficulty enumerated',
 'C14': 'all assignments; number of hash inputs and difficulty enumerated; decomposition modulo the field order is a listed known finding',
 'C15': 'unbounded: the arithmetic by contracts and lemmas over the integers, recursion and loops by invariants; the key constants checked by computation; quadratic-residue theory assumed',
 'C16': 'modular arithmetic proved for all operands; unseal of a sealed file proved by induction for any numbers of blocks, units and rounds with a unit as one value; byte addressing within the composition bounded to listed parameter shapes; delay encoding, hash and dependency choice by contract',
 'C17': 'proved by induction for any numbers of blocks, units and rounds with a unit as one value; byte addressing bounded to listed parameter shapes; delay encoding, hash and dependency choice by contract',
 'C18': 'for all contents, keys and ivs, bounded to listed parameter shapes and every range of blocks; the parallel variant for any number of threads, every task proved independent of the others, hence for every schedule',
 'C19': 'random modes unbounded by loop invariants; documented modes for all indices and sizes at enumerated counts (bounded in the count)',
 'C20': 'any number of units by proved induction; unit sizes enumerated',
 'C21': 'unbounded: any count and range, loop invariant over the set drawn so far; termination of the rejection loop assumed',
 'C22': 'for all contents, bounded block shapes and parameter sets',
 'C23': 'any number of leaves and challenges by proved induction; leaf sizes enumerated; the Merkle library and SHA-256 trusted',
 'C24': 'unbounded: any parameters, key, iv and prior contents; callees by their contracts (C15, C16, C20)',
}
TECH = 'contract-based deductive verification of the crate\'s MIR: symbolic execution, loop induction, z3 bit-vector/array obligations and exact polynomial identities over the scalar field'
TECHB = TECH + '; the composition of whole-file functions is a bounded stand-in (listed parameter shapes), labelled bounded and not counted as proved'
def main():
    import importlib
    sys.path.insert(0, os.path.join(V, 'engine'))
    import check
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in PROPS: f.write(json.dumps(p) + '\n')
    checks = [dict(property=p['id'], quick_cmd='python3-vt engine/check.py %s --tier quick' % p['id'], thorough_cmd='python3-vt engine/check.py %s --tier thorough' % p['id'],
                   evidence_file='evidence/%s.json' % p['id'], technique=TECH if check.PROPS[p['id']].level == 'proof' else TECHB, level=check.PROPS[p['id']].level, level_note=NOTE[p['id']], theorems=list(check.PROPS[p['id']].contracts)) for p in PROPS if p['id'] in check.PROPS]
    na = [dict(property=p['id'], reason=NA.get(p['id'], 'not yet claimed: contracts under construction')) for p in PROPS if p['id'] not in check.PROPS]
    m = dict(version=1, setup_cmd='python3-vt engine/prep.py', hooks=dict(guard='none', enable='no hooks in /repo: every check copies the crate to a scratch folder, appends its entry-point module there and compiles the copy', source_commits=[]),
             checks=checks, not_applicable=na, notes='See DESIGN.md. Known findings and fixed defects: known_findings.json.')
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1); open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
    for p in PROPS:
        assert len(p['title']) <= 80, p['id']
main()
