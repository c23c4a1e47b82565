"""Which analyses decide which property."""
from runner import *

THOROUGH = TIER == 'thorough'

# Kinds of violations, after which the behaviour of the program isn't defined or the function
# doesn't return: no property of the result holds on such a path.
FATAL = {'oob-read', 'oob-write', 'assert', 'div-zero', 'fp-range', 'shift', 'signed-overflow', 'termination', 'uninit', 'throw', 'terminate', 'unreachable', 'overlap'}
MEM_READ = {'oob-read', 'uninit'}

BASE = ['clang 18 front end (translation of the headers to LLVM IR, -O1 without optimisation passes, then sroa and mem2reg)',
        'semantics of LLVM IR instructions as encoded in engine/*.cpp', 'GMP', 'IEEE-754 binary32/binary64, round to nearest']


def P(fn, **kw):
    d = {'fn': fn}
    d.update(kw)
    return ('print', 'print.cpp', d)


CT = [('c', 1), ('w', 4), ('u16', 2), ('u32', 4)]


def ftoa(ft, ct='c', **kw):
    d = dict(type=ft, unit=dict(CT)[ct], phase=SEED)
    d.update(kw)
    return P('h_ftoa_%s_%s' % (ft, ct), **d)


def pair(ft, ct, **kw):
    d = dict(type=ft, unit=1, unit2=dict(CT)[ct], pair=1, phase=SEED)
    d.update(kw)
    return P('h_pair_%s_%s' % (ft, ct), **d)


def strg(ft, ct, **kw):
    d = dict(type=ft, unit=dict(CT)[ct], unit2=dict(CT)[ct], pair=1, phase=SEED)
    d.update(kw)
    return P('h_str_%s_%s' % (ft, ct), **d)


def printing_runs():
    """char: every exponent of both signs; wider characters: a sample"""
    if THOROUGH:
        return [ftoa('d'), ftoa('f')] + [ftoa(t, c) for t in 'df' for c in ('w', 'u16', 'u32')]
    return [ftoa('f'), ftoa('d'), ftoa('d', 'w', step=64), ftoa('f', 'u16', step=8), ftoa('f', 'u32', step=8, phase=SEED + 3), ftoa('f', 'w', step=8, phase=SEED + 5)]


# property -> (runs, kinds, kinds which must have instances, assumptions, method)
ENGINE = {}
A_FP = ['the floating point environment is the default one (round to nearest, no flush to zero)', 'the buffer has max_buffer_size() characters']


def prop(pid, runs, kinds, need, assumptions, method):
    ENGINE[pid] = (runs, set(kinds), need, assumptions, method)


PRINT_METHOD = ('abstract interpretation of the LLVM IR of the printing entry points, partitioned by sign and exponent field, the significand '
                'being symbolic; exact linear relations and intervals; ')

prop('C01', printing_runs() if not THOROUGH else [ftoa(t, c) for t in 'df' for c, _ in CT],
     {'roundtrip', 'special', 'grammar', 'sign', 'terminated'} | FATAL, ['roundtrip', 'special', 'sign'], A_FP,
     PRINT_METHOD + 'the decimal number left in the buffer is proved to be strictly inside of the interval, which rounds to the value')
prop('C02', printing_runs(), {'grammar', 'special', 'sign', 'canonical', 'terminated'} | FATAL, ['grammar', 'special', 'sign', 'canonical'], A_FP,
     PRINT_METHOD + 'the characters of the buffer are matched with the documented grammar')
prop('C03', [ftoa('f', c) for c, _ in CT] + ([ftoa('d', signs=6)] + [ftoa('d', c, step=12, signs=2) for c in ('w', 'u16', 'u32')] if not THOROUGH else [ftoa('d', c) for c, _ in CT]),
     {'oob-write', 'terminated', 'oob-read', 'uninit'}, ['oob-write', 'terminated', 'oob-read'], A_FP,
     PRINT_METHOD + 'every write is proved to be inside of a buffer of max_buffer_size() characters, every read to be of an initialised one inside of its object')
prop('C04', [strg('f', c) for c, _ in CT] + [strg('d', c, step=1 if THOROUGH else {'c': 8}.get(c, 24)) for c, _ in CT],
     {'length', 'terminated', 'char-types'} | FATAL, ['length', 'char-types', 'terminated'], A_FP,
     PRINT_METHOD + 'the returned length, the position of NUL and the text of std::basic_string (whose code is analysed too) are compared')
prop('C05', [pair('f', c) for c in ('w', 'u16', 'u32')] + [pair('d', c, step=1 if THOROUGH else 12) for c in ('w', 'u16', 'u32')],
     {'char-types', 'length', 'terminated'} | FATAL, ['char-types'], A_FP,
     PRINT_METHOD + 'relational analysis of two printings of the same symbolic value')
prop('C29', printing_runs(), {'notation', 'canonical'} | FATAL, ['notation', 'canonical'], A_FP,
     PRINT_METHOD + 'the notation of the text is compared with the width of its plain form')


# ---- the arithmetic core: specifications in harness/core.cpp
def H(fn, **kw):
    d = {'fn': 'h_' + fn}
    d.update(kw)
    return ('harness', 'core.cpp', d)


CORE_METHOD = ('abstract interpretation of the LLVM IR of the class together with a specification harness, operands being symbolic '
               '(exact linear relations, quotients and products of symbols), split over exponents; ')
SPEC = {'harness', 'power'} | FATAL
prop('C11', [H('powers_d'), H('powers_f')], SPEC, ['power'], [],
     'constant propagation through the table lookup for every exponent of the tables, and comparison of the significand with the exact power in rational arithmetic')
prop('C20',
     [H('fallback_' + a, j=1, expect=b) for a, b in [('d_c', 'strtod'), ('f_c', 'strtof'), ('l_c', 'strtold'), ('d_w', 'wcstod'), ('f_w', 'wcstof'), ('l_w', 'wcstold')]],
     {'callee', 'arguments', 'once', 'result'} | FATAL, ['callee', 'arguments', 'result'], ['the C library functions do what their names promise'],
     'value flow analysis of the default fallback functions: callee, arguments and result')
prop('C24', [H('lossless_d'), H('lossless_f'), H('bounds_d'), H('bounds_f')], SPEC, ['harness'], [],
     CORE_METHOD + 'decomposition, joining and boundaries of every finite value')
prop('C25', [H(f + '_' + t, **o) for f, o in [('multiply', {'j': 1}), ('steps', {'j': 1}), ('normal', {})] for t in 'df'], SPEC, ['harness'],
     ['exponents are in [-5000, 5000]', 'decrement is considered for significands of at least 2'], CORE_METHOD + 'operations for every pair of significands')
prop('C26', [H('round_64'), H('round_32'), H('round_8'), H('sample_d'), H('sample_f')], SPEC, ['harness'], ['error bounds of 1 to 16 units'],
     CORE_METHOD + 'rounding for every position, and joining for every exponent and error bound')

prop('C36', [H(f, **o) for f, o in [('scaling_d', {}), ('scaling_f', {}), ('seq_64', {'j': 1}), ('seq_32', {'j': 1}), ('seq_4', {'j': 1}), ('seq_2', {'j': 1}), ('static', {'j': 1}), ('kappas', {'j': 1}), ('fraction', {}),
                                    ('bits_64', {'j': 1}), ('bits_32', {'j': 1}), ('bits_8', {'j': 1}), ('huge', {'j': 1})]], SPEC, ['harness'], [],
     CORE_METHOD + 'powers, scaling exponents, binary fractions and bit operations are compared with their definitions for every argument')


# ---- parsing
def parse(kind, ft, ct='c', **kw):
    d = dict(fn='h_%s_%s_%s' % (kind, ft, ct), entry=kind, type=ft, unit=dict(CT)[ct], signed=0 if ct in ('u16', 'u32') else 1, phase=SEED, edge=0, step=1000, j=1)
    d.update(kw)
    return ('parse', 'parse.cpp', d)


PARSE_METHOD = ('abstract interpretation of the LLVM IR of the parsing entry points over a symbolic text, characters being partitioned by what the program and '
                'the specification automaton distinguish, with joins at the headers of scanning loops (affine hull, intervals, relations to the reading position); ')
A_TEXT = ['texts of at most 2048 characters', 'errno is not negative', 'the fallback function may return anything and set errno to ERANGE, to another error or leave it alone']
# decimal exponents looked at in any case: those where results get subnormal, vanish, or overflow
AT = {'d': {'c': '-325', 'w': '300', 'u16': '-340', 'u32': '-309'}, 'f': {'c': '-44,34', 'w': '-40,30', 'u16': '-48', 'u32': '-36,38'}}
ALL_PARSE = [parse('atof', t, c, at=AT[t][c]) for t in 'df' for c, _ in CT] + [parse('null', 'd', at='290'), parse('string', 'd', at='-320'), parse('null', 'f', 'w', at='36'), parse('string', 'f', 'u16', at='-46')]
if THOROUGH:
    ALL_PARSE = [parse(k, t, c, step=64) for t in 'df' for c, _ in CT for k in ('atof', 'null', 'string')]
FEW_PARSE = ALL_PARSE if THOROUGH else [parse('atof', 'd', at='-325'), parse('atof', 'f', at='-44'), parse('atof', 'd', 'w', at='300'), parse('atof', 'f', 'w', at='34'), parse('atof', 'd', 'u16'), parse('atof', 'f', 'u32', at='-40'), parse('string', 'd', at='-340'), parse('null', 'f')]
if THOROUGH:
    EXACT = [parse('atof', 'f', step=1, edge=8, j=8)] + [parse('atof', 'd', step=8, edge=8, phase=SEED + k) for k in range(8)] + ALL_PARSE
else:
    EXACT = [parse('atof', 'd', step=200, at='-325'), parse('atof', 'd', step=200, phase=SEED + 100, at='-312'), parse('null', 'd', step=200, phase=SEED + 50, at='295'), parse('string', 'd', step=200, phase=SEED + 150, at='-335'),
             parse('atof', 'd', 'u16', at='-320,305'), parse('atof', 'f', step=8), parse('atof', 'f', 'w', step=8, phase=SEED + 4), parse('atof', 'f', 'u32')]
prop('C06', EXACT, {'rounding', 'special', 'zero'} | FATAL, ['rounding', 'special', 'zero'], A_TEXT,
     PARSE_METHOD + 'values decided without the fallback function are proved to be the nearest ones of the number the text denotes')
prop('C07', ALL_PARSE, {'consumed', 'end', 'nothing', 'fallback-none'} | FATAL, ['consumed', 'end', 'nothing', 'fallback-none'], A_TEXT,
     PARSE_METHOD + 'the reported end position is compared with the position the specification automaton accepted last')
prop('C08', ALL_PARSE, {'oob-read', 'oob-write', 'uninit'}, ['oob-read', 'oob-write', 'uninit'], A_TEXT,
     PARSE_METHOD + 'every read is proved to be of a character up to NUL or of an initialised part of an object, every write to be inside of its object')
prop('C09', ALL_PARSE, {'status', 'overflow', 'underflow'} | FATAL, ['status', 'overflow', 'underflow'], A_TEXT,
     PARSE_METHOD + 'the status is compared with the class of the result, infinities and zeros with the bounds of the number')
prop('C10', ALL_PARSE, {'sign'} | FATAL, ['sign'], A_TEXT, PARSE_METHOD + 'the sign bit of the result is compared with the sign of the text')
prop('C12', FEW_PARSE, {'stale', 'shared-state'}, ['stale'], A_TEXT, PARSE_METHOD + 'errno has an arbitrary value before the call; the status must not depend on it')
prop('C21', ALL_PARSE, {'fallback-args', 'fallback-result', 'fallback-end', 'fallback-status', 'fallback-once'} | FATAL, ['fallback-args', 'fallback-result', 'fallback-end', 'fallback-status', 'fallback-once'], A_TEXT,
     PARSE_METHOD + 'an unknown fallback function is called; its arguments and the use of its results are followed')
SAFE_PRINT = [ftoa('f'), ftoa('d', signs=6, step=1 if THOROUGH else 2)]
prop('C14', SAFE_PRINT + FEW_PARSE, {'throw', 'terminate', 'alloc', 'returns'}, ['returns'], A_FP + A_TEXT,
     'abstract interpretation of the LLVM IR of printing and parsing: no reachable path throws, stops the program or allocates')
prop('C15', SAFE_PRINT + FEW_PARSE, {'signed-overflow', 'shift', 'div-zero', 'fp-range', 'assert', 'unreachable'}, ['signed-overflow', 'shift', 'div-zero', 'fp-range'], A_FP + A_TEXT,
     'abstract interpretation of the LLVM IR of printing and parsing: obligations at every arithmetic instruction and assertion')
prop('C16', SAFE_PRINT + FEW_PARSE, {'termination', 'progress', 'returns'}, ['progress', 'returns'], A_FP + A_TEXT,
     'abstract interpretation of the LLVM IR of printing and parsing: loops are unrolled to their end, scanning loops are proved to advance in every iteration')

prop('C32', printing_runs(), {'digits', 'trailing'} | FATAL, ['digits', 'trailing'], A_FP,
     PRINT_METHOD + 'the significant digits of the text are counted, the last one is proved not to be zero')
prop('C33', [ftoa('f'), ftoa('d', step=8)] + FEW_PARSE, {'errno'}, ['errno'], A_TEXT, PARSE_METHOD + 'errno has an arbitrary value before the call; its value at the end is compared with it, or with what the fallback function has set')
DECIDED = {'consumed', 'end', 'nothing', 'special', 'zero', 'sign', 'rounding', 'status', 'overflow', 'underflow', 'fallback-args', 'fallback-result', 'fallback-end', 'fallback-status'} | FATAL
prop('C34', [parse('atof', t, c, at=AT[t][c]) for t in 'df' for c in ('w', 'u16', 'u32')] if not THOROUGH else [parse('atof', t, c, step=64) for t in 'df' for c in ('w', 'u16', 'u32')],
     DECIDED, ['consumed', 'end', 'nothing', 'special', 'zero', 'sign', 'rounding', 'status'], A_TEXT,
     PARSE_METHOD + 'instantiations for the wider character types are held against the same automaton and number as those for char')
prop('C35', [parse('null', 'd', at='-325'), parse('string', 'd', at='300'), parse('null', 'f', 'w', at='-44'), parse('string', 'f', 'u16', at='34'), parse('null', 'd', 'u32', at='-340'), parse('string', 'd', 'w', at='-309'), parse('null', 'f', at='36'), parse('string', 'f', at='-40')]
     if not THOROUGH else [parse(k, t, c, step=64) for t in 'df' for c, _ in CT for k in ('null', 'string')],
     DECIDED - {'end', 'fallback-end'}, ['consumed', 'nothing', 'special', 'zero', 'sign', 'rounding', 'status', 'fallback-args', 'fallback-result'], A_TEXT,
     PARSE_METHOD + 'the entry points without end pointer are held against the same automaton and number as the one with it')

CIRCLE = {'roundtrip', 'special', 'grammar', 'sign', 'terminated', 'consumed', 'end', 'nothing', 'zero', 'rounding', 'status', 'overflow', 'underflow'} | FATAL
prop('C37', printing_runs()[:2] + EXACT[:1] + [parse('atof', 'f', step=8)] if not THOROUGH else printing_runs() + EXACT, CIRCLE, ['roundtrip', 'grammar', 'consumed', 'rounding', 'status'], A_FP + A_TEXT,
     'abstract interpretation of both directions, put together: printed texts are in the grammar the parser consumes whole (automaton), lie inside the rounding interval of the value, and the parser gives the nearest value of the number')

# property -> (check of a table, run which is made for every exponent, the entry of which isn't the nearest one)
DIRECTED = {p: [(H('powers_d'), parse('atof', 'd')), (H('powers_f'), parse('atof', 'f'))] for p in ('C06', 'C37')}
