#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it after editing)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state:
        d["anchors"]["state"] = [dict(name=a, meaning=b) for a, b in state]
    assert len(title) <= 80, title
    P.append(d)


p("C01", "Galois field arithmetic agrees with polynomial arithmetic over GF(2)",
  "For every supported field width, primitive polynomial and element type, the sum, difference, product, quotient, reciprocal, fused multiply-add and comparison of field elements are those of the polynomials modulo the field polynomial. Discrete logarithms and their products, quotients and reciprocals correspond to the same operations on the elements, and every mix of element and logarithm operands agrees with the all-element form. The table driven and the table free implementation give the same results.",
  ["inputs", "configurations"], "all operand pairs/triples including 0, 1, the largest element and logarithms around the wrap of the exponent; widths 1..16 (table driven) and 2..30 (table free); element types of exactly and more than the field's width",
  "gf_test runs a handful of fixed fields and checks a few identities per element; the mixed element/logarithm overloads and types that are exactly as wide as the field wrap only for particular operand pairs.",
  ["galois_field.hh"], [("log/exp tables, index arithmetic with wrap", "galois_field.hh: Tables, Index operators"), ("shift-and-add product and extended Euclid reciprocal", "galois_field.hh: GaloisFieldReference, rcp")])
p("C02", "Prime field arithmetic is arithmetic modulo the prime",
  "For operands below the prime, sums, differences, negations, products, powers, reciprocals and quotients of prime field elements equal the exact integer operation modulo the prime and are fully reduced. The lazy forms (without reduction) are congruent to the exact result modulo the prime.",
  ["inputs", "configurations"], "all operand pairs for small primes, boundary and sampled operands for primes up to 2^31-1 in 32 and 64 bit types whose square fits the type",
  "pf_test checks two primes and a few identities.",
  ["prime_field.hh"], [("reduce/add/sub/neg/mul/pow/rcp/div", "prime_field.hh: free functions and operators")])
p("C03", "CRC register equals the remainder of the message polynomial",
  "After any sequence of updates by bits, bytes and 16, 32 or 64 bit words the check register equals the one obtained by feeding the same bits, least significant first, one at a time to the reflected shift register of the given polynomial, starting from the value given at construction. Every update returns the value that reading the register then returns, and reset puts the register at the given value.",
  ["inputs", "histories", "configurations"], "every polynomial, start value and register width of 8, 16, 32 and 64 bit, every interleaving of update kinds and resets",
  "crc_test feeds fixed strings to six CRCs; it never mixes update widths, resets to a nonzero value or uses other polynomials.",
  ["crc.hh"], [("byte table update and word updates built from it", "crc.hh: CRC::operator()"), ("8 bit specialisation", "crc.hh: CRC<uint8_t>::operator()(uint8_t)")], [("register", "current remainder")])
p("C04", "Xorshift generators follow their published recurrences",
  "Each xorshift generator produces the sequence of its documented recurrence from its documented default or explicitly given seed words, and reset returns it to the documented default start.",
  ["histories", "inputs"], "all four generators, any number of draws, resets at any point, seeds including extreme words",
  "No test compares generator output to anything; other tests use them only as a source of noise.",
  ["xorshift.hh"], [("state update and output", "xorshift.hh: operator()")], [("state words", "generator state")])
p("C05", "Maximum length sequences obey their feedback polynomial",
  "For every feedback polynomial and nonzero start value the generated bit sequence is that of the linear feedback shift register with that polynomial, resetting restarts it at the given value, and the period test accepts a polynomial exactly if the register runs through all nonzero values before repeating.",
  ["inputs", "histories"], "all polynomials of degree 2..10 exhaustively, sampled beyond, every start state, resets at any point",
  "mls_test looks at the statistics of a few fixed polynomials.",
  ["mls.hh"], [("register step", "mls.hh: operator()"), ("period test", "mls.hh: bad")], [("register", "current LFSR value")])
p("C06", "Bitstream is an exact bit-addressed memory with a cursor",
  "Every read returns the bits most recently written to those positions, whatever mix of bit, byte and block accesses at whatever alignment wrote them; every access advances the cursor by exactly the number of bits transferred and changes no other bit. Bit p of the stream is bit p mod 8 of byte p/8. Seeking moves and telling reports the cursor only; resetting clears all bits and rewinds the cursor.",
  ["histories", "inputs"], "any sequence of seek/reset/put/get/write/read operations within the stream, at any bit alignment and length",
  "No test exercises bitstream.hh at all.",
  ["bitstream.hh"], [("cursor and bit/byte shifting", "bitstream.hh: Bitstream")], [("contents", "bits of the stream"), ("cursor", "next bit position")])
p("C07", "Bit access to byte arrays touches exactly the addressed bit",
  "Setting, flipping or reading bit p of a byte array in little (big) endian bit order addresses exactly bit p mod 8 counted from the least (most) significant bit of byte p/8, for values of any kind of truth, and leaves every other bit as it was.",
  ["inputs", "histories"], "all byte values, bit positions and sequences of set/flip/get in both bit orders",
  "No test exercises these helpers directly; codec tests use them with the same helper on both ends, which hides a common mistake.",
  ["bitman.hh"], [("bit masks", "bitman.hh: xor/set/get_be/le_bit")])
p("C08", "Shuffles and interleavers are the documented invertible permutations",
  "The deterministic shuffle permutes any array by the Fisher-Yates exchange of its fixed generator and the reverse shuffle restores it; the bit reversal permutation exchanges each element with the one at the bit reversed index and is its own inverse. The interleaver and de-interleaver permute any array by the documented rule and undo each other.",
  ["inputs", "configurations", "histories"], "all array sizes, contents with duplicates, repeated use of the same object",
  "polar and regression tests use some permutations at one size and never check they are bijections or inverse to each other.",
  ["permute.hh", "interleave.hh"], [("exchange loops", "permute.hh"), ("index mapping", "interleave.hh")])
p("C09", "Sorting is a stable ordering permutation for every input",
  "Every sorting routine turns every input of every supported length into the ascending rearrangement of the same elements and keeps elements that compare equal in their original order, including the routine that returns the permutation instead of moving a separate key. The vector sorting routines put any vector into ascending order and report the index order that does it.",
  ["inputs", "configurations"], "every array with up to 6 distinct keys exhaustively at small lengths, adversarial and random arrays up to the routine's limit, all run and insertion thresholds",
  "sort_regression_test checks is_sorted on random data of limited length with one threshold, and stability only in part.",
  ["sort.hh", "simd_sort.hh"], [("insertion and merge sort", "sort.hh"), ("compare-exchange network", "simd_sort.hh")])
p("C10", "Exclusive reduction combines all elements but one",
  "For every array length of at least two and every associative and commutative operation, element i of the result is the combination of all input elements except the i-th.",
  ["inputs", "configurations"], "every length 2..40 and several operations on arbitrary values",
  "Only used inside the LDPC decoder; no test looks at it.",
  ["exclusive_reduce.hh"], [("in-place tree", "exclusive_reduce.hh")])
p("C11", "Reed-Solomon encoding is systematic and divisible by the generator",
  "For every message, number of roots, first root and shortened length, the parity computed by the Reed-Solomon encoder makes message and parity together a polynomial that vanishes at exactly the configured consecutive powers of the primitive element, and the message is left unchanged. Encoding does not depend on what the parity buffer held before or on earlier encodings by the same object.",
  ["inputs", "configurations", "histories"], "fields of 8 to 65536 elements, any number of roots, first root 0, 1 and larger, full and shortened lengths",
  "rs tests use three fixed codes with FCR 0 or 1 and full or one shortened length.",
  ["reed_solomon_encoder.hh"], [("generator polynomial and LFSR division", "reed_solomon_encoder.hh")])
p("C12", "Reed-Solomon decoding corrects everything within its capacity",
  "Whenever twice the number of wrong unmarked symbols plus the number of erased positions is at most the number of parity symbols, decoding restores exactly the sent message and parity and returns the number of symbols it had to change. This holds for full and shortened words, any first root and any erasure positions, including erased symbols that happen to be right.",
  ["inputs", "configurations", "fault_sequences"], "every error/erasure pattern of small codes exhaustively, boundary and random patterns of large codes up to 65535 symbols",
  "rs tests corrupt a fixed number of random places in three codes; rare algebraic coincidences (repeated discrepancies, two-error shortcuts, errors at the first or last place) are not hit.",
  ["reed_solomon_decoder.hh", "reed_solomon_error_correction.hh"], [("syndromes", "reed_solomon_decoder.hh"), ("Berlekamp-Massey, location search, Forney", "reed_solomon_error_correction.hh")])
p("C13", "Algebraic decoders never report success for a non-codeword",
  "When the Reed-Solomon or BCH decoder returns a nonnegative number, the data and parity it leaves are a codeword that differs from what was received in exactly that many symbols (bits), all of them within the transmitted part. When it returns failure, data and parity are exactly as received.",
  ["inputs", "configurations", "fault_sequences"], "every received word of small codes exhaustively, random and adversarial words beyond capacity for larger codes, with and without erasures and shortening",
  "Tests only ever corrupt within the capacity, so what happens beyond it is never looked at.",
  ["reed_solomon_decoder.hh", "bose_chaudhuri_hocquenghem_decoder.hh", "reed_solomon_error_correction.hh"], [("degree, root and distance checks before correcting", "reed_solomon_error_correction.hh: operator()"), ("position range check", "decoders' operator()")])
p("C14", "BCH encoding and decoding are correct for both data layouts",
  "For every message the BCH encoder's parity makes a word divisible by the product of the given minimal polynomials, and the decoder restores it from any combination of errors and erasures within the designed capacity, returning the number of bits changed. The packed (big endian bits in bytes) and the one-element-per-bit implementations agree, for full and shortened lengths that are not multiples of eight.",
  ["inputs", "configurations", "fault_sequences"], "every word of small codes exhaustively, random and boundary patterns for larger ones, first root 0, 1 and larger, all shortenings",
  "bch tests run a few fixed codes at one length with a fixed number of random errors.",
  ["bose_chaudhuri_hocquenghem_encoder.hh", "bose_chaudhuri_hocquenghem_decoder.hh", "reed_solomon_error_correction.hh"], [("bit-serial and byte-packed LFSR", "bose_chaudhuri_hocquenghem_encoder.hh"), ("bit syndromes", "bose_chaudhuri_hocquenghem_decoder.hh")])
p("C15", "Any K chunks restore the data (Cauchy Reed-Solomon erasure code)",
  "Any selection of as many distinct chunk identifiers as there are data blocks restores every data block exactly, for every block length, alignment and identifier order. Encoding the same identifier always gives the same chunk, whether computed by vector or scalar code, and nothing outside the block is written.",
  ["inputs", "configurations", "fault_sequences"], "all identifier subsets of small codes, random ones up to the field size, lengths around the vector widths, unaligned buffers",
  "crs_regression_test uses aligned buffers, lengths that are multiples of the vector width and few subsets.",
  ["cauchy_reed_solomon_erasure_coding.hh"], [("Cauchy matrix and inverse elements", "cauchy_reed_solomon_erasure_coding.hh"), ("vector and scalar multiply-accumulate", "cauchy_reed_solomon_erasure_coding.hh: mac")])
p("C16", "Any K chunks restore the data (Cauchy prime field erasure code)",
  "Any selection of as many distinct chunk identifiers as there are data blocks restores every data block exactly when decoded with the substitute value reported at encoding, whatever values the data has. The reported substitute never occurs in the values it is meant to stand in for, and encoding the same identifier always gives the same chunk.",
  ["inputs", "configurations", "fault_sequences"], "all identifier subsets of small codes, data full of boundary values including the one that does not fit the symbol type",
  "cpf_regression_test uses random data, in which the one problematic symbol value is unlikely.",
  ["cauchy_prime_field_erasure_coding.hh", "prime_field.hh"], [("substitution of the overflowing symbol", "cauchy_prime_field_erasure_coding.hh: encode/decode"), ("lazy reduction", "cauchy_prime_field_erasure_coding.hh: mac")])
p("C17", "Short BCH codes: systematic encoding and bounded-distance hard decoding",
  "The short BCH encoder appends parity so that every message maps to the systematic codeword of the given generator polynomial. Hard decision decoding of any word within the design distance of a codeword returns that codeword, and of every other word reports failure instead of a wrong guess.",
  ["inputs", "configurations"], "every message and every received word of the (23,12), (15,5), (15,7), (31,16) and other codes",
  "Tests try random error patterns up to the capacity for three codes and never words beyond it.",
  ["short_bch_code_encoder.hh", "short_bch_code_decoder.hh"], [("bit-serial division", "short_bch_code_encoder.hh"), ("coset/error table", "short_bch_code_decoder.hh")])
p("C18", "Short BCH soft decoding follows the Chase rule",
  "Soft decision decoding returns the one codeword whose correlation with the received values is strictly the largest among all codewords reachable by the documented search, and failure if no single one is: the search covers all codewords for the smallest codes (up to four message bits), otherwise the hard decodings of the hard decision with every pattern of flips on as many least reliable positions as the correction radius.",
  ["inputs", "configurations"], "every sign pattern with varying magnitudes including zero and the most negative value, ties in reliability, least reliable positions anywhere",
  "Tests measure an error rate on random noise; a decoder that ignores some of the least reliable positions still passes.",
  ["short_bch_code_decoder.hh"], [("least reliable selection and flip patterns", "short_bch_code_decoder.hh: soft operator()")])
p("C19", "Hadamard and simplex decoding is maximum likelihood",
  "The Hadamard and simplex encoders produce the row of the code selected by the message, and decoding any soft input returns the message whose codeword has the strictly largest correlation with it. If the largest correlation is not attained by exactly one message the decoder reports failure.",
  ["inputs", "configurations"], "every code size from 1 up, all sign patterns of small codes, extreme values, exact ties",
  "Tests decode noisy codewords of few sizes; ties and extreme inputs are not checked.",
  ["hadamard_encoder.hh", "hadamard_decoder.hh", "simplex_encoder.hh", "simplex_decoder.hh"], [("fast transform and running maximum", "hadamard_decoder.hh, simplex_decoder.hh"), ("specialised small sizes", "hadamard_decoder.hh, simplex_decoder.hh")])
p("C20", "LDPC encoding satisfies every parity check",
  "For every message and every code table, the parity produced by the LDPC encoder satisfies all checks of the repeat-accumulate parity matrix that the table describes, and the message is left unchanged.",
  ["inputs", "configurations", "histories"], "custom tables of many shapes (degrees, group lengths, duplicate links) and the DVB-T2 table, any ±1 message, repeated use",
  "ldpc_regression_test decodes with the library's own decoder for one table, so a consistent mistake on both sides passes.",
  ["ldpc_encoder.hh"], [("accumulation over the location table", "ldpc_encoder.hh")])
p("C21", "LDPC decoding verdict is sound and follows layered min-sum",
  "The LDPC decoder returns a nonnegative value only if the hard decisions it leaves satisfy every parity check, accepts an already valid word without changing it, and never spends more trials than allowed. Its soft outputs follow the layered self-corrected min-sum schedule; of several links of one check into the same vector word one updates it per pass, taking turns.",
  ["inputs", "configurations", "histories"], "code tables of many shapes, soft inputs from clean to garbage including extreme values and zeros, any trial limit, repeated use of one decoder, both vector widths",
  "ldpc_regression_test checks only that one DVB-T2 code is decoded at one noise level.",
  ["ldpc_decoder.hh", "exclusive_reduce.hh", "rotate.hh"], [("layered update and write masks", "ldpc_decoder.hh: update/bad"), ("parity verdict", "ldpc_decoder.hh: bad")], [("message memory", "check to variable messages"), ("write masks", "links already written in this layer")])
p("C22", "Polar encoders implement the polar transform for any frozen set",
  "The plain polar encoder places the message on the non-frozen positions, constant values on the others, and multiplies by the Kronecker power of the polar kernel; the systematic encoder produces, for every frozen set in which no frozen position lies between two free ones in the binary domination order (such as all properly constructed ones), a codeword of the same code in which the message appears unchanged at the non-frozen positions. The parity variant derives its check bits from the documented parity register.",
  ["inputs", "configurations"], "every frozen set of small sizes, random ones of larger sizes, ±1 messages in every supported value type",
  "Tests encode and decode with the library's own decoders for one code each.",
  ["polar_encoder.hh", "polar_parity_aided.hh"], [("butterflies", "polar_encoder.hh"), ("parity positions", "polar_parity_aided.hh: encoder")])
p("C23", "Polar successive cancellation decodes by the min-sum SC rule",
  "For every frozen set and every soft input, successive cancellation decoding returns the bits that the textbook bit-by-bit min-sum rule in the decoder's arithmetic gives, whether or not whole sub-trees are shortcut (blocks of up to 32 free positions are decided by the signs of their own soft values, which is the same unless one of these is exactly zero), and a noiseless codeword decodes to its message.",
  ["inputs", "configurations", "histories"], "every frozen set of small sizes, structured and random ones of larger sizes, saturating and zero inputs",
  "polar_regression_test decodes one code at one noise level and checks the message only.",
  ["polar_decoder.hh", "polar_helper.hh"], [("recursive tree with shortcut nodes", "polar_decoder.hh"), ("saturating kernel operations", "polar_helper.hh")])
p("C24", "Polar list decoding keeps the best paths and reports them in order",
  "List decoding of any soft input explores paths by the min-sum metric keeping as many of the cheapest as the list size, returns the surviving messages in order of non-decreasing metric (as of the last non-frozen position) together with their ranks (neighbours of equal metric share a rank), and with a list of every path finds the best codeword. The parity aided variant additionally forces the documented parity positions.",
  ["inputs", "configurations", "histories"], "frozen sets with all shortcut node kinds, list sizes of every vector width, soft inputs from clean to garbage",
  "polar_list_regression_test checks one code with a CRC that picks any surviving entry; wrong metrics or order go unnoticed.",
  ["polar_list_decoder.hh", "polar_parity_aided.hh", "polar_helper.hh"], [("fork and sort of path metrics", "polar_list_decoder.hh"), ("parity positions", "polar_parity_aided.hh")])
p("C25", "Polar code construction freezes the right channels",
  "The construction marks exactly the requested number of positions as frozen, always the least reliable ones under the erasure channel recursion, and the reliability sequence is a permutation in order of that reliability.",
  ["inputs", "configurations"], "code sizes up to 2^10, any number of information bits, a range of channel erasure probabilities",
  "Tests only use constructed codes for decoding at one rate, where freezing a slightly wrong set still works.",
  ["polar_freezer.hh", "polar_sequence.hh"], [("recursion and threshold or selection", "polar_freezer.hh"), ("sorting of positions", "polar_sequence.hh")])
p("C26", "Ordered statistics decoding finds the best codeword of its order",
  "For any generator matrix of full rank and any soft input, ordered statistics decoding considers every codeword that differs from the hard decision in at most the given number of the most reliable independent positions and returns the one with the largest correlation. It reports success exactly if that maximum is attained by a single candidate, and the generator matrix helpers produce a basis of the code.",
  ["inputs", "configurations", "histories"], "several codes and orders, soft inputs with ties, zeros and extreme values, repeated use of one decoder",
  "osd_regression_test measures an error rate for two codes; suboptimal or skipped candidates only shift it slightly.",
  ["osd.hh"], [("reliability ordering and elimination", "osd.hh: OrderedStatisticsDecoder"), ("candidate enumeration", "osd.hh: update")])
p("C27", "Ordered statistics list decoding returns the best candidates in order",
  "The list variant returns that many distinct candidate codewords, those with the largest correlations among all candidates of its order, in order of non-increasing correlation.",
  ["inputs", "configurations", "histories"], "several codes, orders and list sizes up to the number of candidates, soft inputs with ties and extremes",
  "osld_regression_test accepts any list that contains the sent word.",
  ["osd.hh"], [("candidate list insertion", "osd.hh: OrderedStatisticsListDecoder")])
p("C28", "Every SIMD backend computes the same lane-wise operations",
  "For every lane type and vector width, each vector operation applies its documented scalar operation independently to every lane, with saturating arithmetic saturating, comparisons giving all-ones or all-zeros masks, selects choosing bit by bit, clamps keeping values within ordered limits and shuffles with indices inside the vector moving exactly the addressed lanes. The generic, SSE4.1, AVX2 and NEON implementations agree for all such inputs (finite normal floating point numbers up to the sign of zero; 32 and 64 bit integer arithmetic that does not overflow; 8 and 16 bit arithmetic wraps).",
  ["inputs", "configurations"], "all operand pairs for 8 bit lanes in every lane, all operands of unary operations for 16 bit lanes, boundary and sampled pairs for wider and floating point lanes, all widths that have a specialisation and some that have none",
  "No test exercises the SIMD layer directly; the decoders use a few operations on benign values with the one backend of the build.",
  ["simd.hh", "avx2.hh", "avx2_double.hh", "sse4_1.hh", "sse4_1_double.hh", "sse4_1_triple.hh", "sse4_1_quadruple.hh", "neon.hh", "neon_double.hh", "neon_triple.hh", "neon_quadruple.hh"], [("intrinsics per operation", "avx2*.hh, sse4_1*.hh, neon*.hh"), ("scalar loops", "simd.hh")])
p("C29", "Vector rotation moves every lane cyclically",
  "Rotating a vector left or right by any amount and within any prefix length moves lane i of that prefix to the cyclically shifted place, for every vector width; rotating left and then right by the same amount restores the prefix.",
  ["inputs", "configurations"], "all shift amounts and prefix lengths, all widths, all backends",
  "Only used inside the LDPC decoder with one prefix length.",
  ["rotate.hh"], [("shuffle or copy", "rotate.hh")])
p("C30", "Codec objects carry nothing over from one call to the next",
  "Encoding or decoding the same input again gives the same result no matter what was encoded or decoded before or in between, with the same object, a freshly made one or another object of the same codec, including decodings that failed and codes of other lengths, and no matter what output buffers held. Read-only inputs are left unchanged. (LDPC codes whose checks have several links into the same words are left out: there such links take turns from call to call by design.)",
  ["histories"], "any interleaving of successful and failing calls on the objects of every codec: Reed-Solomon, BCH, Cauchy erasure, short BCH, Hadamard, simplex, ordered statistics, LDPC and polar encoders and decoders and polar code constructors",
  "Tests use an object for one or a few successful calls in a row.",
  ["reed_solomon_decoder.hh", "reed_solomon_encoder.hh", "bose_chaudhuri_hocquenghem_decoder.hh", "bose_chaudhuri_hocquenghem_encoder.hh", "polar_list_decoder.hh", "polar_parity_aided.hh", "polar_decoder.hh", "polar_freezer.hh", "polar_sequence.hh", "ldpc_decoder.hh", "osd.hh", "hadamard_decoder.hh", "simplex_decoder.hh", "short_bch_code_decoder.hh", "cauchy_reed_solomon_erasure_coding.hh", "cauchy_prime_field_erasure_coding.hh"], [("scratch members reused between calls", "all codec classes")])
p("C31", "Decoders report the true syndromes of every word",
  "For any received word of full or shortened length, the syndromes a Reed-Solomon or BCH decoder computes are the values of the received polynomial at the configured consecutive powers of the primitive element, the returned number is how many of them are not zero, and the word is left unchanged. It returns zero for codewords only.",
  ["inputs", "configurations"], "codewords, words with one, few or many errors and arbitrary words, all fields, first roots, shortened lengths, packed and one-element-per-symbol layouts, raw and typed overloads",
  "No test calls the public syndrome computation; within decoding a wrong syndrome shows only for particular words.",
  ["reed_solomon_decoder.hh", "bose_chaudhuri_hocquenghem_decoder.hh"], [("compute_syndromes, update_syndromes", "reed_solomon_decoder.hh, bose_chaudhuri_hocquenghem_decoder.hh")])
p("C32", "Syndromes lead to the error pattern behind them",
  "The stages of algebraic decoding do their part for every field, number of roots and first root. Given any syndromes that are not all zero and up to that many distinct erased locations, error correction either fails or returns distinct locations, the erased ones among them, with magnitudes that have exactly these syndromes; a pattern of e errors and f erasures with 2e+f no more than the number of syndromes is always found (erased symbols that were right get magnitude zero). Berlekamp-Massey returns the shortest recurrence of any sequence. The location finder returns, for a polynomial of degree d with constant coefficient other than zero, its d roots if it has that many different ones in the field, and less than d otherwise, for degrees with a closed form as for those searched; the exhaustive search returns the locations of all different nonzero roots. Inputs are left unchanged.",
  ["inputs", "configurations"], "all quadratics of small fields, products of chosen linear factors with and without repeated or missing roots, all or sampled syndromes with erasures, patterns within and beyond capacity, sequences of every linear complexity, up to hundreds of roots",
  "Tests only reach the stages through whole decodings within capacity; closed forms and degenerate polynomials arise by chance if at all.",
  ["reed_solomon_error_correction.hh"], [("Chien, ArtinSchreier, LocationFinder, Forney, BerlekampMassey, ReedSolomonErrorCorrection", "reed_solomon_error_correction.hh")])

if __name__ == "__main__":
    here = os.path.dirname(os.path.abspath(__file__))
    with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
        for d in P:
            f.write(json.dumps(d) + "\n")
