#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the texts below (one source for both)."""
import json, os, sys
V=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,V)
import checks
T='include/thls/tops/'
P=[]
def prop(id,title,statement,over,text,why,files,mech,note,observe=None,na=None):
    P.append((dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=[f if f.startswith('include/') else T+f for f in files],mechanism=[dict(name=n,where=w if w.startswith('include/') else T+w) for n,w in mech],observe_at=observe or ['return value of the public operation'],hook_needed=None)),note,na))
BOUND='Exhaustive within stated bounds: every operand combination of every small format, and the full cross product of a boundary alphabet (all exponent distances around the significand width, both ends of the exponent range, structured fractions, all special codes) for wide formats. Wide formats outside the alphabet are not covered. '
TRUST='Trusts the exact-integer reference in harness/oracle.hpp (cross-validated against MPFR in the same run) and g++ -O2.'
prop('P01','Addition is the correctly rounded exact sum',
 'For every pair of operands of any supported formats, the default addition returns the exact sum rounded to nearest-even in the result format, regardless of operand order. Results too small for the smallest normal become zero and results beyond the largest become infinity, with the sign of the exact sum (exact cancellation gives +zero); NaN, infinity and signed-zero operands follow IEEE rules, whatever stale exponent or fraction bits a special operand carries.',
 ['inputs','configurations'],'all operand pairs (including redundant encodings of specials) x all format combinations with exponent width > 3',
 'Tests sample random pairs of a handful of formats and accept either faithful neighbour for the single-path adder; the failing region of an alignment, sticky or cancellation bug is one exponent distance and a few fraction patterns.',
 ['fp_flopoco_primitives.hpp','fp_flopoco_add_dual_v1.hpp','fp_flopoco_add_single_v1.hpp','fp_promote.hpp'],
 [('dispatch between dual-path and small adder','fp_flopoco_primitives.hpp:add'),('close path leading-zero shift; far path alignment, sticky and rounding','fp_flopoco_add_dual_v1.hpp:add_dual'),('widening of mixed operands','fp_promote.hpp:promote')],BOUND+TRUST)
prop('P02','Multiplication is the correctly rounded exact product',
 'For every pair of operands and every operand and result width, multiplication returns the exact product rounded to nearest-even into the result format. Underflow gives signed zero, overflow signed infinity, zero times infinity NaN; squaring is multiplication by itself; the sign is the exclusive or of the operand signs, and stale payload bits of special operands never matter.',
 ['inputs','configurations'],'all operand pairs x all operand/result width combinations (result narrower, equal, or wide enough to be exact)',
 'Tests sample random pairs of a few formats, so ties, double carries and results one step from underflow or overflow are rarely met, and exact-width products with special results hardly at all.',
 ['fp_flopoco_primitives.hpp','fp_flopoco_mul_v1.hpp'],[('significand product, normalisation, sticky, round and exponent range check','fp_flopoco_mul_v1.hpp:mul_v1'),('exact result path','fp_flopoco_mul_v1.hpp:mul_v1 wFR>=wFX+wFY+1')],BOUND+TRUST)
prop('P03','Division is the correctly rounded exact quotient',
 'For every dividend and divisor of any supported formats, division returns the exact quotient rounded to nearest-even. Finite by zero is signed infinity, zero by zero and infinity by infinity NaN, finite by infinity signed zero; underflow and overflow give signed zero and infinity.',
 ['inputs','configurations'],'all operand pairs x all format combinations',
 'Tests sample; a wrong digit-selection table entry or lost remainder bit shows for a sparse set of divisor/remainder patterns and only for some parities of the width.',
 ['fp_flopoco_primitives.hpp','fp_flopoco_div_v1.hpp'],[('SRT digit recurrence and selection table','fp_flopoco_div_v1.hpp:div'),('quotient conversion, normalisation and rounding','fp_flopoco_div_v1.hpp:div')],BOUND+TRUST)
prop('P04','Reciprocal is correctly rounded',
 'For every operand, the reciprocal equals one divided by the operand rounded to nearest-even in the operand format, including signed zero to signed infinity and back, NaN, underflow of the reciprocal of the largest numbers to signed zero, and agreement with division.',
 ['inputs','configurations'],'all operands x all formats',
 'No test exercises this entry point directly; an error may affect a single fraction at a single exponent.',
 ['fp_flopoco_primitives.hpp','fp_flopoco_inv_v1.hpp','fp_flopoco_div_v1.hpp','fp_flopoco_inv_nr.hpp'],[('selection of the direct table or the divider','fp_flopoco_primitives.hpp:inv'),('one divided by the operand','fp_flopoco_inv_v1.hpp:inv_v1')],'Exhaustive over all codes of formats up to 2^20 codes and over all fractions of selected exponents up to 23 bits; boundary alphabets over every exponent above. '+TRUST)
prop('P05','Approximate reciprocals are faithful; the table form is correctly rounded',
 'For every operand, the fast reciprocal (table plus Newton-Raphson) returns one of the two representable numbers bracketing the exact reciprocal (the number itself when exact), with exact handling of specials, underflow and overflow. The purely table-driven reciprocal returns the correctly rounded result.',
 ['inputs','configurations'],'all operands x all operand/result fraction widths',
 'Tests sample operands of some widths, yet the error bound is tight: the first fraction to exceed one unit can be one in millions.',
 ['fp_flopoco_inv_nr.hpp','fp_flopoco_primitives.hpp'],[('initial approximation table','fp_flopoco_inv_nr.hpp'),('Newton-Raphson iteration in fixed point and final rounding','fp_flopoco_inv_nr.hpp:inv_nr'),('direct reciprocal table','fp_flopoco_inv_nr.hpp:inv_direct')],'Every fraction for widths up to 23 bits (24+ in thorough) at several exponents; boundary alphabet over every exponent up to 53 bits. '+TRUST)
prop('P06','Alternative adders and divider equal the default operations',
 'Every alternative implementation of addition (single-path variants, small and fast adders) and of division returns exactly the same number as the correctly rounded reference for every operand pair its format restrictions admit, so a design may swap one for another without any result changing.',
 ['inputs','configurations'],'all operand pairs x each implementation x its formats',
 'The tests of the single-path adders accept results one unit off and only sample; most of the variants are run at one or two formats.',
 ['fp_flopoco_add_single_v1.hpp','fp_flopoco_add_single_v2.hpp','fp_flopoco_add_single_v3.hpp','fp_flopoco_add_single_v4.hpp','fp_flopoco_add_single_v5.hpp','fp_flopoco_add_dual_v1.hpp','fp_flopoco_div_v2.hpp'],
 [('alignment shift cap, sticky, rounding decision','fp_flopoco_add_single_v1.hpp:add_single'),('mixed-width alignment','fp_flopoco_add_single_v5.hpp:add_single_v5'),('leading-zero count through lookup','fp_flopoco_add_single_v3.hpp'),('radix-4 recurrence','fp_flopoco_div_v2.hpp:div_v2')],BOUND+TRUST)
prop('P07','Ordering is the numeric order; NaN is unordered',
 'For every pair of numbers, also of different formats, the six comparison operators and the relational helpers agree with the numeric order of the two values: zeros of either sign are equal, infinities compare by sign alone, and every comparison with NaN is false except inequality. Consequently the order is total and consistent (trichotomy, symmetry, transitivity) on non-NaN numbers.',
 ['inputs','configurations'],'all pairs of codes x format pairs',
 'No test calls the ordering operations on mixed or special operands; only a handful of sampled equalities exist.',
 ['fp_flopoco_ordering.hpp','fp_flopoco.hpp'],[('sign, class and magnitude comparison','fp_flopoco_ordering.hpp')],'All code pairs of small formats incl. mixed pairs, boundary alphabets for wide formats. '+TRUST)
prop('P08','Conversion rounds correctly; promotion is lossless',
 'Converting a number to any other exponent and fraction width returns the nearest representable number (ties to even) of the target format, with underflow to signed zero and overflow to signed infinity; specials keep class and sign. Promoting to a format at least as wide in both fields is exact, and converting back restores the original.',
 ['inputs','configurations'],'all numbers x all (source, target) width pairs',
 'Tests sample a few random numbers for a few width pairs, never the specials, the ties, or the carries into the exponent limit together.',
 ['fp_flopoco_convert.hpp','fp_convert.hpp','fp_promote.hpp'],[('fraction rounding and carry','fp_flopoco_convert.hpp'),('exponent re-bias and range check','fp_flopoco_convert.hpp'),('exponent re-bias by widening','fp_promote.hpp:promote')],'Every code for every pair of small formats; every exponent x rounding-boundary fractions for wide ones. '+TRUST)
prop('P09','Negation flips the sign and nothing else',
 'Negating any number into any format returns exactly what converting it and flipping its sign would: zeros and infinities change sign, NaN stays NaN, rounding is unaffected by sign. Negating twice gives back the number.',
 ['inputs','configurations'],'all numbers x format pairs','No test runs negation on specials or with a change of format.',
 ['fp_flopoco_neg_v1.hpp','fp_flopoco_primitives.hpp'],[('sign inversion followed by conversion','fp_flopoco_neg_v1.hpp:neg')],'Every code of small formats and format pairs, every exponent x alphabet of wide ones. '+TRUST)
prop('P10','IEEE interchange format converts without changing values',
 'Decoding an IEEE pattern to the internal format preserves its value (subnormal patterns are zeros of the same sign), and encoding rounds only where the target cannot hold the value, so every IEEE normal, zero, infinity and NaN survives the round trip through the internal format, the arbitrary-precision library and native floats. Field accessors, predicates, equality, limits and the reference operations of the IEEE type agree with the decoded value, also between operands of different widths and when the result is stored through an argument, and the text of every pattern describes its class, sign and value.',
 ['inputs','configurations'],'all IEEE patterns x formats; all internal codes x formats; all native floats',
 'Tests round-trip a few random values of three formats and never subnormals, NaN payloads, or the two internal binades IEEE cannot hold.',
 ['fp_ieee.hpp','fp_convert.hpp','fp_promote.hpp','policy_flopoco.hpp'],[('pattern classification','fp_ieee.hpp'),('IEEE to internal and back','fp_convert.hpp:convert'),('widening between IEEE formats','fp_promote.hpp:promote'),('native float casts','policy_flopoco.hpp:to')],'All patterns of formats up to 16 bits, all 2^32 native floats in thorough, boundary alphabets otherwise. '+TRUST)
prop('P11','Values survive the trip through MPFR and native doubles',
 'Writing any number to the arbitrary-precision type gives its exact value and sign, and constructing from that value gives back the same number; values out of range or of the wrong precision are rejected unless the caller allows rounding to zero or infinity. Constructing from a native double keeps class, sign and the leading fraction bits, and converting to a native double is exact whenever the double can hold the number.',
 ['inputs','configurations'],'all codes x formats; all doubles of a boundary alphabet x formats',
 'Tests use these paths only as glue for random normals; specials, negative values, subnormal doubles and range limits are never checked.',
 ['fp_flopoco.hpp'],[('construction from MPFR and range check','fp_flopoco.hpp:fp_flopoco(mpfr_t,bool)'),('construction from double','fp_flopoco.hpp:fp_flopoco(double)'),('export','fp_flopoco.hpp:get, to_double, to_double_approx')],'All codes of small formats, every exponent x alphabet for wide ones, all double exponents x alphabet. '+TRUST)
prop('P12','Stepping walks the number line one value at a time',
 'For every number, stepping up returns the next larger representable number and stepping down the next smaller one, crossing binades, the two zeros and the infinities in order, so walking from one infinity to the other visits every number exactly once and stepping up then down returns to the start. The published limits (smallest, largest, one, infinity, digits, exponent range) are the actual ends of that line.',
 ['inputs','configurations','histories'],'all numbers x formats; complete walks across small formats',
 'Tests step from a few points of one format and never cross binade edges downwards.',
 ['fp_flopoco.hpp'],[('increment and decrement of exponent and fraction','fp_flopoco.hpp:nextup, nextdown, nextafter'),('numeric limits','fp_flopoco.hpp:std::numeric_limits')],'Complete walks and all codes of small formats; every exponent x alphabet for wide ones. '+TRUST)
prop('P13','Predicates, fields and equality describe the encoded value',
 'For every encoding, exactly one of zero, normal, infinite and NaN holds, the signed variants agree with the sign bit, field accessors return the encoded fields and rebuilding from them gives the same number. Equality holds exactly for encodings of the same value (ignoring bits of specials that carry no value), and closeness holds exactly for numbers at most one representable step apart. The text of a number shows its bits, class, sign, exponent and value.',
 ['inputs','configurations'],'all codes and pairs of codes x formats',
 'These helpers are the oracle of the existing tests: a too lenient equality or closeness makes every other test pass vacuously.',
 ['fp_flopoco.hpp'],[('flag decoding','fp_flopoco.hpp:is_*'),('equality and closeness','fp_flopoco.hpp:equals, within_1ulp')],'All code pairs of small formats; boundary alphabets for wide ones. '+TRUST)
from meta_more import more
more(prop,BOUND,TRUST)
if __name__=='__main__':
    with open(V+'/properties.jsonl','w') as f:
        for d,_,_ in P:
            assert len(d['title'])<=80,d['title']; assert len(d['statement'])<2000
            f.write(json.dumps(d)+'\n')
    m=dict(version=1,setup_cmd='true',
      checks=[dict(property=d['id'],quick_cmd='python3 run.py %s quick'%d['id'],thorough_cmd='python3 run.py %s thorough'%d['id'],evidence_file='evidence/%s.json'%d['id'],
        technique='explicit-state model checking: exhaustive bounded enumeration of the real code against a reference model',level=checks.CHECKS[d['id']]['level'],level_note=n) for d,n,na in P if d['id'] in checks.CHECKS],
      not_applicable=[dict(property=d['id'],reason=na or 'not built yet') for d,n,na in P if d['id'] not in checks.CHECKS],
      notes='No hooks in /repo: every property is observable through the public headers. known_findings.txt lists fixed defects and recorded findings.')
    json.dump(m,open(V+'/MANIFEST.json','w'),indent=1); open(V+'/MANIFEST.json','a').write('\n')
    print(len(P),'properties',len(m['checks']),'checks')
