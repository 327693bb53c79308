"""Writes properties.jsonl and MANIFEST.json (run by hand: python3-vt tools/mkdocs.py)."""
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')

FORMATS = ('Half, Single, Double, Quad, BFloat, Float8E5M2, Float8E4M3FN and X87DoubleExtended, and user formats built '
           'on the public Semantics trait')
RM = 'all five rounding modes'

# id: title, statement, quantifier, why tests can't, mechanism [(name, file, fn)], level note / not applicable
P = {}


def prop(i, title, st, quant, why, mech, note=None, na=None, over=('inputs',)):
    P[i] = dict(id=i, title=title, st=st, quant=quant, why=why, mech=mech, note=note, na=na, over=list(over))


GRID = 'The tests evaluate a fixed list of operands per operation, mostly in Single and Double and mostly one rounding mode; '

prop('C01', 'Bit patterns decode, classify and re-encode faithfully',
     'Decoding any bit pattern of a format and encoding the value again returns the same bit pattern (except X87 non-canonical '
     'patterns, which re-encode as the canonical form of the value they denote), and every classification predicate '
     '(sign, zero, denormal, normal, infinite, NaN, signaling, smallest, largest, category) answers as the format\'s encoding '
     'rules say for that pattern. Two values are bitwise equal exactly when their re-encodings are equal.',
     'every bit pattern of every format: ' + FORMATS,
     'A Quad or X87 pattern has 2^128 or 2^80 values; tests try a handful of named ones.',
     [('decoding and encoding', 'src/ieee.rs', 'from_bits'), ('encoding', 'src/ieee.rs', 'to_bits'),
      ('classification', 'src/lib.rs', 'is_normal')])

ARITH = ('the nearest (or directed) representable value to the exact result, denormals, signed zeros, overflow and underflow '
         'included, with exactly the status flags (inexact, underflow, overflow, invalid, division by zero) IEEE 754 prescribes')
prop('C02', 'Addition and subtraction are correctly rounded with exact flags',
     'For every pair of operands and every rounding mode, addition and subtraction return ' + ARITH + '. '
     'Exact cancellation gives the zero whose sign the rounding mode dictates, and invalid combinations and NaN operands give '
     'the documented quiet NaN.',
     'every pair of bit patterns of each format: %s; %s' % (FORMATS, RM),
     GRID + 'guard, round and sticky handling depends on the operands\' distance and carry pattern, which only a quantifier over '
     'all pairs settles.',
     [('addition', 'src/ieee.rs', 'add_r'), ('limb addition with lost fraction', 'src/ieee.rs', 'add_or_sub'),
      ('rounding', 'src/ieee.rs', 'normalize')])
prop('C03', 'Multiplication is correctly rounded with exact flags',
     'For every pair of operands and every rounding mode, multiplication returns ' + ARITH + '.',
     'every pair of bit patterns of each format: %s; %s' % (FORMATS, RM),
     GRID + 'double rounding, denormal products and half-way cases occupy a tiny part of the operand space.',
     [('multiplication', 'src/ieee.rs', 'mul_r'), ('limb multiplication', 'src/ieee.rs', 'mul'),
      ('rounding', 'src/ieee.rs', 'normalize')])
prop('C04', 'Division is correctly rounded with exact flags',
     'For every pair of operands and every rounding mode, division returns ' + ARITH + '.',
     'every pair of bit patterns of each format: %s; %s' % (FORMATS, RM),
     GRID + 'the quotient\'s last bit and the lost fraction depend on a full-length remainder.',
     [('division', 'src/ieee.rs', 'div_r'), ('limb division', 'src/ieee.rs', 'div'), ('rounding', 'src/ieee.rs', 'normalize')])
prop('C05', 'Fused multiply-add rounds once, with exact flags',
     'For every triple of operands and every rounding mode, the fused multiply-add returns a*b+c rounded a single time: '
     + ARITH + '.',
     'every triple of bit patterns of each format: %s; %s' % (FORMATS, RM),
     GRID + 'three operands, massive cancellation and addends far below the product are not sampled by the listed triples.',
     [('fused multiply-add', 'src/ieee.rs', 'mul_add_r'), ('product with addend', 'src/ieee.rs', 'mul'),
      ('rounding', 'src/ieee.rs', 'normalize')])
prop('C06', 'C-style remainder is exact',
     'For every pair of operands the truncating remainder (also the % operator) is exactly a - b*trunc(a/b), with the sign of a '
     'and no rounding, for every exponent distance; division by zero, infinite dividends and NaNs give the documented NaN and '
     'status.',
     'every pair of bit patterns of each format: ' + FORMATS,
     'The tests list about a dozen pairs; the reduction loop runs a number of times that depends on the exponent distance.',
     [('remainder loop', 'src/ieee.rs', 'c_fmod')])
prop('C07', 'IEEE remainder is exact with ties to even',
     'For every pair of operands the IEEE remainder is exactly a - b*n, n being the integer nearest a/b and the even one on a '
     'tie, with the sign of a on a zero result; special operands give the documented NaN and status.',
     'every pair of bit patterns of each format: ' + FORMATS,
     'The tests list a few pairs in Double; halving the divisor near the smallest exponents and tie cases are rare.',
     [('remainder', 'src/ieee.rs', 'ieee_rem')])
prop('C08', 'Rounding to an integral value is exact in every mode',
     'For every operand and rounding mode, rounding to integral returns the neighbouring integer that mode selects, keeps the '
     'sign of zero results, reports inexact exactly when the value changes, and leaves integral, infinite and NaN operands as '
     'they are documented to be left. is_integer answers true exactly for finite values that have no fractional part.',
     'every bit pattern of each format: %s; %s' % (FORMATS, RM),
     'The tests use about 30 values.',
     [('round_to_integral', 'src/ieee.rs', 'round_to_integral'), ('is_integer', 'src/lib.rs', 'is_integer')])
prop('C09', 'next_up and next_down give the adjacent value',
     'For every operand next_up returns the least representable value greater than it and next_down the greatest representable '
     'value less than it, across zeros, denormal and binade boundaries, largest finite values and infinities; NaNs are returned '
     'quiet with the documented status.',
     'every bit pattern of each format: ' + FORMATS,
     'The tests check named boundary values of Single and Quad.',
     [('neighbours', 'src/ieee.rs', 'next_up')])
prop('C10', 'Format conversion is correctly rounded and reports lost information',
     'Converting any value between any two formats gives the correctly rounded value in the target with the correct status '
     'flags, maps NaN payload and sign as documented, and sets loses_info exactly when the target value is not the source value.',
     'every bit pattern of the source, every ordered pair of the eight formats (and user formats), ' + RM,
     'The tests cover about ten conversions of single values; formats pairs are 64 and widening, narrowing and NaN-only formats '
     'take different paths.',
     [('conversion', 'src/ieee.rs', 'convert_r'), ('limb shifts', 'src/ieee.rs', 'shift_right')])
prop('C11', 'Integers convert to correctly rounded floats',
     'Every signed and unsigned 128-bit integer converts to the correctly rounded value of the format with the correct status '
     'flags in every rounding mode, overflow of narrow formats included.',
     'every 128-bit integer, every format: %s; %s' % (FORMATS, RM),
     'The tests convert a handful of integers.',
     [('from_u128_r', 'src/ieee.rs', 'from_u128_r'), ('from_i128_r', 'src/lib.rs', 'from_i128_r')])
prop('C12', 'Floats convert to integers exactly, saturating with invalid',
     'Converting any value to a signed or unsigned integer of any width up to 128 returns the value rounded to an integer in the '
     'given mode when it fits, and otherwise the saturated bound (zero for NaN) with the invalid status; inexact is reported '
     'exactly when a fraction was lost, and the exactness output is true exactly when the integer represents the very value '
     '(so not for a negative zero).',
     'every bit pattern of each format, every width 1..128 (signed) or 0..128 (unsigned), ' + RM,
     'The tests use a few values at widths such as 32 and 64.',
     [('to_u128_r', 'src/ieee.rs', 'to_u128_r'), ('to_i128_r', 'src/lib.rs', 'to_i128_r')])
prop('C13', 'Comparisons are the IEEE order',
     'For every pair of operands the partial order and the operators ==, !=, <, <=, >, >= agree with the real values: NaN '
     'is unordered with everything, the two zeros are equal, infinities bound the order; the magnitude comparison of finite '
     'non-zero values orders their absolute values.',
     'every pair of bit patterns of each format: ' + FORMATS,
     'The tests compare a matrix of about ten values.',
     [('partial order', 'src/ieee.rs', 'partial_cmp'), ('magnitudes', 'src/ieee.rs', 'cmp_abs_normal')])
prop('C14', 'min, max, minimum and maximum follow their documentation',
     'For every pair of operands min and max return the smaller or larger operand and the other one when one is a NaN; minimum '
     'and maximum return a NaN when either is one and order -0 below +0.',
     'every pair of bit patterns of each format: ' + FORMATS,
     'The tests use about four pairs.',
     [('min/max', 'src/lib.rs', 'minimum')])
prop('C15', 'NaN operands propagate quietly with the documented payload',
     'In every arithmetic operation a NaN operand yields a quiet NaN with the payload and sign of the operand the documentation '
     'selects, reporting invalid exactly when an operand was signaling; operations that create a NaN give the canonical quiet '
     'NaN with invalid.',
     'every operand tuple with a NaN among them, or that is invalid, of every format and every arithmetic operation; ' + RM,
     'Tests use the default NaN; payload bits and the mix of signaling and quiet operands are not enumerated.',
     [('propagation', 'src/ieee.rs', 'binop_result_from_either_nan'), ('quieting', 'src/ieee.rs', 'result_from_nan')])
prop('C16', 'Negation, absolute value and sign copy touch the sign alone',
     'For every operand, NaNs included, negation flips the sign, abs clears it and copy_sign takes the other operand\'s sign, and '
     'every other bit of the encoding stays.',
     'every bit pattern (pair) of each format: ' + FORMATS,
     'The tests use a few values.',
     [('negation', 'src/ieee.rs', 'neg'), ('abs and copy_sign', 'src/lib.rs', 'copy_sign')])
prop('C17', 'Constants and NaN constructors have the format\'s encodings',
     'Every constant (zero, infinity, default NaN, largest, smallest, smallest normalized, bit width, precision, exponent bounds) '
     'is the value the format\'s layout prescribes, and quiet and signaling NaNs built from any payload carry exactly the payload '
     'bits that fit and the right quiet bit, a signaling NaN never becoming an infinity.',
     'every 128-bit payload, each format: ' + FORMATS,
     'The tests try few payloads.',
     [('NaN constructors', 'src/ieee.rs', 'snan'), ('constants', 'src/ieee.rs', 'largest')])
prop('C18', 'scalbn, frexp and ilogb are exact',
     'For every operand and every 32-bit exponent, scalbn returns value*2^n correctly rounded, frexp returns a fraction in '
     '[0.5,1) and an exponent that recombine to the operand, and ilogb the exponent of the leading bit or the documented '
     'special codes; extreme exponents neither panic nor wrap.',
     'every bit pattern, every i32 exponent, each format: %s; %s' % (FORMATS, RM),
     'The tests use a few values and exponents.',
     [('scalbn', 'src/ieee.rs', 'scalbn_r'), ('frexp', 'src/ieee.rs', 'frexp_r'), ('ilogb', 'src/ieee.rs', 'ilogb')])
prop('C19', 'Exact inverses are returned exactly when they exist',
     'get_exact_inverse returns the reciprocal exactly when the operand is a finite power of two whose reciprocal is a normal '
     'value, and nothing otherwise.',
     'every bit pattern of each format: ' + FORMATS,
     'The tests use seven values.',
     [('inverse', 'src/ieee.rs', 'get_exact_inverse')])
prop('C20', 'Decimal strings parse to the correctly rounded value',
     'Every well-formed decimal string, with sign, point and exponent in any legal position, parses to the correctly rounded '
     'value in every rounding mode with the correct status flags, also when the digits overflow or underflow the format.',
     'every decimal string, each format: %s; %s' % (FORMATS, RM),
     'The tests parse a list of literals; correct rounding depends on every digit.',
     [('decimal parsing', 'src/ieee.rs', 'from_decimal_string')])
prop('C21', 'Hexadecimal strings parse to the correctly rounded value',
     'Every well-formed hexadecimal floating string parses to the correctly rounded value in every rounding mode with the correct '
     'status flags, digits beyond the precision counting towards rounding.',
     'every hexadecimal string, each format: %s; %s' % (FORMATS, RM),
     'The tests parse a list of literals.',
     [('hexadecimal parsing', 'src/ieee.rs', 'from_hexadecimal_string')])
prop('C22', 'The parser accepts exactly its grammar and never panics',
     'For every input string the parser either returns a value or the documented error, accepting exactly the documented grammar '
     '(special names, NaN payloads, decimal and hexadecimal forms, signs), and never panics, overflows or loops.',
     'every ASCII string, each format: %s; %s' % (FORMATS, RM),
     'The tests try about fifty malformed strings.',
     [('dispatch', 'src/ieee.rs', 'from_str_r'), ('hexadecimal', 'src/ieee.rs', 'from_hexadecimal_string'),
      ('decimal', 'src/ieee.rs', 'from_decimal_string')])
prop('C23', 'Display prints text that reads back as the value',
     'Formatting any value produces a decimal text that parses back, in the same format and round-to-nearest, to the identical '
     'value, with the documented names for infinities and NaN and the sign of zero kept; it never panics.',
     'every bit pattern of each format: ' + FORMATS,
     'The tests print about thirty values.',
     [('formatting', 'src/ieee.rs', 'fmt')])
prop('C24', 'DoubleDouble behaves as its pair of doubles',
     'A double-double decodes and encodes its two halves unchanged, classifies, compares and negates as the sum of the halves, '
     'and its arithmetic agrees with the documented algorithms on the halves, special values included; no operation panics on '
     'any bit pattern.',
     'every 128-bit pattern (pair of doubles)',
     'The tests list about forty pairs.',
     [('operations', 'src/ppc.rs', 'add_r'), ('comparison', 'src/ppc.rs', 'cmp_abs_normal')])
prop('C25', 'Operators and default forms equal the explicit round-to-nearest ones',
     'Every operator, assigning operator and default-rounding method returns exactly what the explicit-rounding form returns for '
     'round-to-nearest-even (for conversions to integers: toward zero); status sets combine as sets, and negating a rounding mode swaps the two directed modes and nothing '
     'else.',
     'every operand tuple of every format; every status set; every rounding mode',
     'Tests never compare the two forms.',
     [('operator impls', 'src/lib.rs', 'float_common_impls'), ('Round negation', 'src/lib.rs', 'neg'),
      ('status', 'src/lib.rs', 'and')])
prop('C26', 'Special operands give the IEEE special results and never panic',
     'For every operand tuple that contains a zero, an infinity or a NaN, every arithmetic operation returns the value and status '
     'IEEE 754 and the documentation prescribe (invalid operations, division by zero, signed zeros), and never panics, in every '
     'format.',
     'every tuple with at least one zero, infinity or NaN operand, every format: %s; %s' % (FORMATS, RM),
     'The tests check tables in Single with fixed finite operands.',
     [('category tables', 'src/ieee.rs', 'mul_r'), ('category tables', 'src/ieee.rs', 'div_r')])


def line_of(f, fn):
    for i, l in enumerate(open(os.path.join(REPO, f)), 1):
        if re.search(r'(fn|macro_rules!) %s\b' % fn, l):
            return i
    return 0


TECH = 'symbolic execution of the compiled LLVM IR, bit-blasted and decided by a SAT solver (kissat) against an independent reference'
NOTE = ('Bounded symbolic check of the code rustc generates from /repo: the verdict is the SAT solver\'s over all values within '
        'the bounds listed in the evidence file. Trusts rustc\'s IR, the executor and bit-blaster in vp/ (cross-checked against '
        'the compiled code on sample inputs in every run) and kissat. Tasks the solver cannot settle in time are listed in the '
        'evidence as undecided and nothing is claimed for them. ')


def main():
    sys.path.insert(0, HERE)
    from vp import checks
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P.values():
            files = sorted({m[1] for m in p['mech']})
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['st'],
                'quantifier': {'over': p['over'], 'text': p['quant']}, 'why_tests_cant': p['why'],
                'anchors': {'files': files, 'mechanism': [
                    {'name': n, 'where': '%s %s' % (fl, fn)} for n, fl, fn in p['mech']],
                    'observe_at': ['public API of the Float and FloatConvert traits'], 'hook_needed': None}}) + '\n')
    ch, na = [], []
    for i, p in P.items():
        if i in checks.PROPS:
            pr = checks.PROPS[i]
            ch.append({'property': i, 'quick_cmd': 'python3-vt -m vp.run %s quick' % i,
                       'thorough_cmd': 'python3-vt -m vp.run %s thorough' % i, 'evidence_file': 'evidence/%s.json' % i,
                       'technique': TECH, 'level': 'model_checking',
                       'level_note': NOTE + 'Quick bounds: %s. Thorough bounds: %s.' % (pr.bounds('quick'), pr.bounds('thorough'))})
        else:
            na.append({'property': i, 'reason': p['na'] or 'no check built yet'})
    json.dump({'version': 1, 'setup_cmd': 'python3-vt -m vp.test_bv 2000',
               'hooks': {'guard': 'none', 'enable': 'no hooks: the checks use the public API only', 'source_commits': []},
               'checks': ch, 'not_applicable': na,
               'notes': 'All checks share vp/ (engine) and harness/ (entry points). DESIGN.md explains; properties.jsonl states.'},
              open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)


main()
