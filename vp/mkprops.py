import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    P.append({'id':id,'title':title,'statement':statement,'quantifier':{'over':over,'text':text},'why_tests_cant':why,
      'anchors':{'files':['include/floaxie/'+f for f in files],'mechanism':[{'name':n,'where':'include/floaxie/'+w} for n,w in mech],'observe_at':observe or []}})
ALLV='all 2^64 double and 2^32 float values, every character type'
TXT='all NUL-terminated texts of up to 2048 characters (the documented limit of significant length), both floating point types, all character types'
p('C01','Printed text converts back to exactly the printed value',
 'For every finite value, the number denoted by the text ftoa() leaves in the buffer lies strictly inside the interval of reals that round to that value, so any correctly rounding reader restores exactly the same value. Infinities and NaN are printed as texts that denote infinity of the same sign and NaN.',
 ['inputs'],ALLV,'The tests print a few dozen hand-picked values (the exhaustive round-trip tests of the project depend on a missing file and are not built); an error in one exponent range or one digit-generation boundary is not sampled.',
 ['ftoa.h','grisu.h','diy_fp.h','prettify.h','cached_power.h','powers_ten_double.h','powers_ten_single.h'],
 [('boundaries of the rounding interval','diy_fp.h'),('grisu2 / digit_gen','grisu.h'),('cached powers of ten','cached_power.h'),('prettify','prettify.h')],['ftoa(), to_string()'])
p('C02','Printed text follows the documented grammar',
 'The text of a finite non-zero value is an optional minus sign exactly when the value is negative, digits with at most one decimal point which has digits on both sides, optionally followed by e, an optional minus and one to three digits; there are no superfluous leading zeros and exponent form has one non-zero digit before the point. NaN, infinities and zero are printed as nan, inf, -inf and 0.',
 ['inputs'],ALLV,'Tests compare a handful of complete strings; the shape must hold for every combination of digit count and exponent.',
 ['ftoa.h','prettify.h'],[('special values','ftoa.h'),('prettify / prettify_exponent','prettify.h')],['buffer after ftoa()'])
p('C03','Printing never leaves the documented buffer size and terminates the text',
 'ftoa() writes only inside the first max_buffer_size<T>() characters of the buffer, whatever the value, reads only what it has written, and always leaves a NUL after the text.',
 ['inputs'],ALLV+', buffers of exactly max_buffer_size() characters','Tests use buffers larger than needed, so that overruns and stale reads stay invisible; the longest text needs a rare combination of sign, digit count and exponent.',
 ['ftoa.h','prettify.h','grisu.h','print.h','memwrap.h','static_pow.h'],[('max_buffer_size()','ftoa.h'),('max_digits','static_pow.h'),('memset/memmove of characters','memwrap.h')],['caller supplied buffer'])
p('C04','Returned length and string wrappers agree with the buffer contents',
 'The value returned by ftoa() is the number of characters before the terminating NUL. to_string(), to_wstring(), to_u16string() and to_u32string() return exactly that text, without trailing characters.',
 ['inputs'],ALLV,'The length test of the project is not built (missing file); wrappers are tested with three values.',
 ['ftoa.h','prettify.h'],[('length computation','prettify.h'),('to_basic_string()','ftoa.h')],['return value of ftoa()','to_*string()'])
p('C05','Text is the same for every character type',
 'Printing one value with char, wchar_t, char16_t and char32_t gives the same sequence of characters and the same length.',
 ['inputs'],ALLV,'Only char and wchar_t are tested, with a few values; the specialised memory routines differ between the types.',
 ['memwrap.h','print.h','prettify.h','ftoa.h'],[('character routines','memwrap.h')],['ftoa() of each character type'])
p('C06','Parsed value is correctly rounded or left to the fallback function',
 'Whenever atof() returns a number without consulting the fallback function, it is the value of the type nearest to the number the consumed text denotes (infinity and zero included, at the limits of the range); in every other case the fallback function decides the result.',
 ['inputs'],TXT,'Correct rounding depends on digit patterns near the midpoints between adjacent values, unreachable by sampling.',
 ['krosh.h','diy_fp.h','bit_ops.h','fraction.h','powers_ten_double.h','powers_ten_single.h'],[('krosh()','krosh.h'),('parse_mantissa()','krosh.h'),('downsample() and round_up()','diy_fp.h'),('convert_numerator()','fraction.h')],['value of atof() / from_string()','calls of the fallback function'])
p('C07','Parsing consumes the longest prefix which is a number',
 'The end position reported by atof() is the end of the longest prefix matching: optional sign, then nan with an optional parenthesised alphanumeric suffix, or inf/infinity in any case, or digits with at most one decimal point and at least one digit, followed by an optional exponent with at least one digit. If there is no such prefix the start of the text is reported and the value is zero; a null end pointer changes nothing else.',
 ['inputs'],TXT,'Prefix grammars have unboundedly many malformed continuations; tests cover a few.',
 ['krosh.h','atof.h'],[('parse_digits()','krosh.h'),('eat_nan() / eat_inf()','krosh.h'),('parse_exponent()','krosh.h')],['*str_end'])
p('C08','Parsing reads nothing outside of the text and its own tables',
 'For any NUL-terminated text, atof() reads only characters up to and including the terminating NUL, accesses its internal buffers and tables within bounds and reads no uninitialised memory.',
 ['inputs'],TXT,'Overreads by a character or out-of-range table indices produce no visible failure in ordinary tests.',
 ['krosh.h','cached_power.h','fraction.h','bit_ops.h'],[('digit buffer of parse_digits()','krosh.h'),('look-back of truncated digits','krosh.h'),('table index','cached_power.h')],['memory accesses'])
p('C09','Overflow and underflow are reported with infinity and zero, and only then',
 'A result decided without the fallback function is reported as overflow exactly when the number is too large to round to a finite value (the value is then an infinity), as underflow exactly when a non-zero number rounds to zero (the value is then a zero), and as success otherwise.',
 ['inputs'],TXT,'The limits are single values among 2^64 and have to hold for every spelling of the number.',
 ['krosh.h','diy_fp.h','huge_val.h'],[('range of the table','krosh.h'),('downsample() limits','diy_fp.h')],['status of atof()'])
p('C10','Sign is preserved on every path of parsing',
 'The result of atof() is negative (including negative zero, negative infinity and the sign of NaN) exactly when the text starts with a minus sign and a number was recognised.',
 ['inputs'],TXT,'The sign is applied at several exits (zero, overflow, underflow, special values, regular), tests cover some of them with one spelling.',
 ['krosh.h'],[('sign of the result','krosh.h')],['sign bit of the value'])
p('C11','Powers of ten are correctly rounded over the whole table',
 'For every decimal exponent the library has a power of ten for, the stored binary significand is normalized and differs from the exact power by at most half a unit in its last place.',
 ['inputs'],'all 687 + 101 table entries','Tests touch a few exponents; one wrong digit in one of 800 constants gives wrong last bits for a narrow range of numbers only.',
 ['powers_ten.h','powers_ten_double.h','powers_ten_single.h','cached_power.h'],[('tables','powers_ten_double.h'),('cached_power()','cached_power.h')],['accuracy of printing and parsing'])
p('C12','Result does not depend on what happened before',
 'Value, status and end position of a conversion depend only on its arguments: neither errno left by earlier calls nor earlier conversions change them.',
 ['histories'],'all histories of earlier calls, represented by arbitrary errno and arbitrary contents of mutable variables','Tests run conversions from a clean state and in one order.',
 ['atof.h','default_fallback.h'],[('errno handling','atof.h'),('check_errno()','default_fallback.h')],['status after earlier failures'])
p('C13','Concurrent conversions share no mutable state',
 'Conversions running in different threads do not interfere: nothing reachable from the public functions writes or reads mutable process-wide state.',
 ['schedules'],'all interleavings of any number of threads calling any public functions','No test runs conversions concurrently, and races show up rarely.',
 ['ftoa.h','atof.h','krosh.h','grisu.h','prettify.h','memwrap.h'],[('constant tables, automatic variables only','krosh.h')],['calls from several threads'])
p('C14','Printing never throws, allocates or terminates the program',
 'ftoa() is declared and behaves as non-throwing, allocates no memory and never ends the program; parsing does not throw or allocate memory outside of the fallback function either.',
 ['inputs'],ALLV+'; '+TXT,'An exception or an allocation on a rare path is not visible in tests with common inputs.',
 ['ftoa.h','grisu.h','prettify.h','krosh.h'],[('noexcept functions','ftoa.h'),('noexcept parse_digits()','krosh.h')],['exceptions','allocations'])
p('C15','No undefined arithmetic and no failing assertion',
 'No conversion overflows signed integers, shifts by the width of the type or more, converts floating point values out of the range of the integer type, divides by zero or fails an assertion, whatever the input.',
 ['inputs'],ALLV+'; '+TXT,'Undefined arithmetic usually gives the expected result on the test machine; assertions fail only for rare values.',
 ['grisu.h','diy_fp.h','bit_ops.h','krosh.h','fraction.h','k_comp.h'],[('shifts and roundings','bit_ops.h'),('exponent arithmetic','krosh.h'),('power index computation','k_comp.h')],['undefined behaviour'])
p('C16','Every conversion terminates after a bounded number of steps',
 'Printing any value finishes after a bounded number of loop iterations; parsing moves on by at least one character of the text in every iteration of its scanning loops and stops at the terminating NUL at the latest.',
 ['inputs'],ALLV+'; '+TXT,'A loop which does not advance for one rare state hangs only for the inputs reaching it.',
 ['grisu.h','prettify.h','krosh.h','diy_fp.h'],[('digit generation loop','grisu.h'),('scanning loops','krosh.h'),('normalisation loop','diy_fp.h')],['termination'])
p('C17','Headers are self-contained and may be included in several translation units',
 'Every header compiles when it is the only one included, and programs may include the headers in any number of translation units, under C++14, C++17 and C++20, without multiple definitions.',
 ['programs','configurations'],'every header x {g++, clang++} x {C++14, C++17, C++20}; every definition emitted by the headers','Each test is a single translation unit including the headers in one order.',
 ['atof.h','ftoa.h','krosh.h','grisu.h','prettify.h','powers_ten_double.h','powers_ten_single.h','powers_ten.h','memwrap.h'],[('inline/template definitions','powers_ten_double.h')],['compilation','linking'])
p('C18','Every supported combination of types can be used',
 'Printing into char, wchar_t, char16_t and char32_t buffers and strings, parsing char and wchar_t texts with the default fallback and texts of any of the four character types with a fallback of the caller compile and link for float and double.',
 ['programs'],'every public function x {float, double} x {char, wchar_t, char16_t, char32_t} x fallback kinds','Templates which no test instantiates are not even compiled.',
 ['ftoa.h','atof.h','memwrap.h','default_fallback.h'],[('character routines','memwrap.h'),('fallback specialisations','default_fallback.h')],['compilation','linking'])
p('C19','Unsupported value types are rejected at compile time',
 'Converting integers, extended precision or other floating point types, for which the library has no tables and limits, does not compile instead of giving wrong results.',
 ['programs'],'all public functions x unsupported arithmetic types','A program that must not compile cannot be part of an ordinary test.',
 ['diy_fp.h','krosh.h','ftoa.h','atof.h'],[('undefined primary template of type traits','diy_fp.h'),('static assertion on the size','krosh.h')],['compilation'])
p('C20','Default fallback is the C library function of the same type and character',
 'The default fallback function passes text and end pointer unchanged to the C library conversion with the same floating point and character type, and returns its result unchanged.',
 ['inputs'],'float, double, long double x char, wchar_t, all arguments','A conversion through a wider type (double rounding) or of the wrong function differs only for rare texts.',
 ['default_fallback.h'],[('default_fallback() specialisations','default_fallback.h')],['value of hard-to-round texts'])
p('C21','Fallback result is honoured verbatim',
 'When the fallback function is consulted it gets the original text and end pointer, and the value and end position it produces are those atof() reports; status is overflow, underflow or success according to what the fallback function signalled.',
 ['inputs','fault_sequences'],TXT+', fallback functions with arbitrary results','Tests use one fallback function and a couple of texts.',
 ['atof.h','default_fallback.h'],[('fallback call','atof.h'),('check_errno()','default_fallback.h')],['atof() with a fallback of the caller'])
p('C22','Result does not depend on the locale',
 'Printing and parsing give the same results under every C and C++ locale.',
 ['configurations'],'all locales','Tests run in the "C" locale only.',
 ['krosh.h','default_fallback.h','ftoa.h'],[('own character classification','krosh.h')],['results after setlocale()'])
p('C24','Decomposition of floating point values is lossless',
 'Splitting a finite value into significand and exponent and converting back without rounding gives the same value; boundaries computed for it are exactly the midpoints to its neighbours.',
 ['inputs'],ALLV,'Tests sample a few values; powers of two, subnormals and the largest value need their own treatment.',
 ['diy_fp.h','type_punning_cast.h'],[('construction from the value','diy_fp.h'),('downsample()','diy_fp.h'),('boundaries()','diy_fp.h')],['diy_fp'])
p('C25','Extended precision arithmetic has the documented accuracy',
 'Multiplication of extended significands returns the product rounded to within half a unit in the last place, increment and decrement move to the adjacent extended value renormalising on carry, and normalisation preserves the value.',
 ['inputs'],'all pairs of significands and exponents','The space of 128 bit products cannot be sampled for carries between the partial products.',
 ['diy_fp.h','bit_ops.h'],[('operator*','diy_fp.h'),('operator++/--','diy_fp.h'),('normalize()','diy_fp.h')],['diy_fp'])
p('C26','Rounding helper rounds to nearest and reports uncertainty',
 'Rounding away low bits goes up exactly when they exceed one half of the last kept bit, ties going to even, and the result is reported as uncertain exactly when the error of the discarded bits could change the decision.',
 ['inputs'],'all significands, shift amounts and errors','Tests sample a few bit patterns.',
 ['bit_ops.h'],[('round_up()','bit_ops.h')],['round_up()'])
p('C29','Notation is chosen by the width of the plain form',
 'A finite value is printed in plain notation exactly when its plain form takes at most 16 digits, and in exponent notation otherwise.',
 ['inputs'],ALLV,'Tests compare a few complete strings, the boundary between the notations depends on digit count and exponent together.',
 ['ftoa.h','prettify.h'],[('decimal_scientific_threshold','ftoa.h'),('prettify()','prettify.h')],['ftoa()'])
p('C32','Printed digits are never superfluous',
 'The text of a finite non-zero value has at most std::numeric_limits<T>::max_digits10 significant digits (17 for double, 9 for float), and neither its fraction nor its significand in exponent notation ends with a zero.',
 ['inputs'],ALLV,'Tests print a sample of short numbers; how many digits are generated depends on the distance of the value to both boundaries.',
 ['grisu.h','prettify.h'],[('digit generation loop','grisu.h')],['ftoa()'])
p('C33','errno is changed by the fallback function only',
 'A conversion which does not consult the fallback function leaves errno as it was; otherwise errno is what the fallback function has set it to, or what it was before when the fallback function has left it alone. Printing does not touch errno.',
 ['inputs','histories'],TXT+', every value of errno before the call','Tests look at the values only, errno of the caller before and after the call is a history.',
 ['atof.h','default_fallback.h'],[('saving and restoring errno','atof.h')],['errno after the call'])
p('C34','Texts of wide characters are parsed like narrow ones',
 'Texts made of the same characters as char, wchar_t, char16_t or char32_t give the same value, status and end position; characters outside of the basic set are never taken for digits, letters or punctuation of a number.',
 ['inputs'],TXT,'Tests use wide texts of the same ASCII numbers; characters above 127 or 255 do not occur.',
 ['krosh.h','atof.h'],[('ascii_tolower()','krosh.h'),('parse_digits()','krosh.h'),('parse_exponent()','krosh.h')],['atof()'])
p('C35','All entry points of parsing agree',
 'from_string(s) and atof() with a null end pointer return the value (also by conversion of the result to the number) and status atof() with an end pointer reports for the same text, and pass the text and a null end pointer to the fallback function.',
 ['inputs'],TXT,'Tests use one of the entry points with a few numbers.',
 ['atof.h'],[('atof() with nullptr','atof.h'),('from_string()','atof.h')],['atof()','from_string()'])
p('C36','Helpers compute exactly what they document',
 'Powers used for the digits are exact; the power of ten chosen for any value is in the table and brings its exponent into the range of the printing algorithm; the binary fraction made of dropped decimal digits is within a unit of the exact one; masks, single bits and bit tests are exact for every width including the full one; the biggest divisor of a digit sequence is the highest power of ten not above it.',
 ['inputs'],'all arguments of the helpers in their ranges of use, all exponents of both floating point types','Tests reach the helpers through a few conversions.',
 ['static_pow.h','k_comp.h','fraction.h','bit_ops.h','grisu.h','huge_val.h','cached_power.h'],[('seq_pow()','static_pow.h'),('k_comp_exp()','k_comp.h'),('convert_numerator()','fraction.h'),('mask()','bit_ops.h'),('calculate_kappa_div()','grisu.h')],['helpers'])
p('C37','A printed value comes back when the text is parsed',
 'For every finite value, and both infinities, atof() of the text ftoa() prints consumes the whole text and returns an equal value with a successful status (or consults the fallback function), for every type and character type; NaN comes back as a NaN.',
 ['inputs'],ALLV,'The full circle test samples random values; a disagreement of the two algorithms needs particular digits at particular exponents.',
 ['ftoa.h','atof.h','grisu.h','krosh.h'],[('grisu2()','grisu.h'),('krosh()','krosh.h')],['atof(ftoa())'])
p('C38','Documented uses of the public functions compile and link',
 'The examples of the README, any callable (function, pointer, lambda, functor with or without state, std::function) as the fallback function of atof() and from_string() with any character type, implicit conversion of results to the number, and max_buffer_size() as a constant for plain and qualified types compile and link in C++14, C++17 and C++20.',
 ['programs'],'the public functions x documented ways of use x language versions','Tests use the functions in one way each.',
 ['atof.h','ftoa.h','conversion_status.h','default_fallback.h'],[('value_and_status','atof.h'),('FallbackCallable','atof.h'),('max_buffer_size()','ftoa.h')],['compilation','linking'])
p('C30','Shortest form is printed for at least 99% of values',
 'The printed text has the smallest possible number of digits for more than 99% of values.',
 ['inputs'],'a measure over all values','It is a statement about proportions of 2^64 values.',
 ['grisu.h'],[('digit generation with rounding towards the value','grisu.h')],['length of the text'])
p('C31','Conversions are faster than the C library',
 'Printing and parsing are faster than the conversions of the C library.',
 ['configurations'],'machines and workloads','Time is not observed by the tests.',
 ['grisu.h','krosh.h'],[('cached powers','cached_power.h')],['time'])
open(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__)))+'/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P: assert len(x['title'])<=80,x['title']
