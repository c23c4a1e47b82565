PR = 'Printing: every exponent field of the listed types with a symbolic significand; '
CHECKS.update({
 'C01': (AI, 'proof', PR + 'double (char) and float (char) completely in quick, all character types in thorough.'),
 'C02': (AI, 'proof', PR + 'all double and float values with char, samples of exponents for the wider character types in quick; everything in thorough.'),
 'C03': (AI, 'proof', PR + 'all float values with all character types, negative double with char, samples of exponents for the rest in quick; everything in thorough.'),
 'C04': (AI, 'proof', PR + 'all float values with all character types, a sample of exponents for double in quick; everything in thorough. The code of std::basic_string is analysed as well.'),
 'C05': (AI + ', relational over two runs', 'proof', PR + 'all float values, a sample of exponents for double in quick; everything in thorough.'),
 'C13': ('effect analysis over the IR call graph', 'other', 'Every function reachable from any instantiation of the public functions; mutable variables and non-reentrant callees.'),
 'C17': ('compile witnesses and linkage analysis of the emitted IR', 'other', 'Every header x 2 compilers x 3 language versions; every emitted definition.'),
 'C18': ('compile witnesses and reference analysis of the emitted IR', 'other', 'Every public function x floating point x character type; every reference to a library symbol.'),
 'C19': ('compile-fail witnesses', 'other', 'Four public functions x 8 unsupported types x 2 compilers, with positive witnesses.'),
 'C22': ('call graph reachability', 'other', 'Locale dependent functions must not be reachable; the default fallback functions are known findings.'),
 'C29': (AI, 'proof', PR + 'all double and float values with char, samples of exponents for the wider character types in quick; everything in thorough.'),
})
CO = 'Every operand symbolic, exponents enumerated; '
CHECKS.update({
 'C11': ('constant propagation and exact rational comparison', 'proof', 'Every entry of both tables, read through the accessor.'),
 'C20': ('value flow analysis of the IR', 'proof', 'All six specialisations (float, double, long double; char, wchar_t).'),
 'C24': (AI, 'proof', CO + 'every finite value of float and double.'),
 'C25': (AI, 'proof', CO + 'every pair of significands, both sizes.'),
 'C26': (AI, 'proof', CO + 'every position of the rounding bit for three widths; every exponent from below the subnormal range to above the overflow threshold, error bounds 1..16.'),
})
NA.update({
 'C30': 'a proportion over 2^64 values: neither the shortest length nor the share of values reaching it is decided by a per-path argument in reach',
 'C31': 'execution time is not a property of the source which static analysis decides',
})
PA = 'Every text of up to 2048 characters, both floating point types, all character types, with and without end pointer; the decimal exponent is sampled, where the value matters, in quick; '
CHECKS.update({
 'C06': (AI, 'proof', PA + 'more of the exponents in thorough. Correct rounding of the sampled exponents is proved for all significands, including digits beyond the significand.'),
 'C07': (AI, 'proof', PA + 'the end position does not depend on the exponent.'),
 'C08': (AI, 'proof', PA + 'reads of the text, tables and local buffers.'),
 'C09': (AI, 'proof', PA + 'results decided without the fallback function.'),
 'C10': (AI, 'proof', PA + 'sign bit of every result.'),
 'C12': (AI + ', effect analysis over the IR call graph', 'proof', PA + 'initial errno arbitrary; no function reads or writes mutable state.'),
 'C14': (AI + ', compile witnesses', 'proof', PR + 'a sample for double in quick; ' + PA + 'no throwing, terminating or allocating path.'),
 'C15': (AI, 'proof', PR + 'a sample for double in quick; ' + PA + 'every arithmetic instruction and assertion.'),
 'C16': (AI, 'proof', PR + 'a sample for double in quick; ' + PA + 'every loop.'),
 'C21': (AI, 'proof', PA + 'fallback function with an arbitrary result, end position and error.'),
})
CHECKS.update({
 'C32': (AI, 'proof', PR + 'all double and float values with char, samples for the wider character types in quick.'),
 'C36': (AI, 'proof', CO + 'every argument of the helpers in the range of their use.'),
 'C37': (AI + ', both directions composed', 'proof', PR + PA + 'the two analyses meet in the grammar and in the number the text denotes.'),
 'C38': ('compile witnesses and reference analysis of the emitted IR', 'other', 'README examples, nine kinds of fallback callables x 2 types x 4 character types, conversions, constants; 2 compilers x 3 language versions.'),
 'C33': (AI + ', effect analysis over the IR call graph', 'proof', PA + 'errno arbitrary at entry.'),
 'C34': (AI, 'proof', PA + 'instantiations for wchar_t, char16_t and char32_t.'),
 'C35': (AI, 'proof', PA + 'from_string() and atof() without end pointer.'),
})
