#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that statements are reviewed in one place)."""
import json, os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
I='nom-derive-impl/src/'
OBS=['return value of parse / parse_be / parse_le of generated and library Parse implementations (value, remaining slice, error kind and position, Needed)']
prop('C01','A derived struct parser is the in-order composition of its field parsers',
 "For every struct (named, tuple, unit) and every input, the derived parse function consumes the fields strictly in declaration order, each from where the previous one stopped, and on success returns exactly those field values and the unconsumed suffix of the input. The first field (or field directive) that fails decides the result, with its own error kind, position and Incomplete amount, and nothing after it runs. This holds for any legal combination of the documented field attributes.",
 ['programs','inputs'],'all legal struct definitions over the documented attributes, all byte inputs (every truncation and every trailing suffix included)',
 'The tests fix about 60 definitions and one or two well-formed inputs each; they never vary the combination of attributes, almost never look at the remaining slice after failure, error positions or truncated inputs.',
 [I+'gen/structs.rs',I+'structs.rs',I+'parsertree.rs','src/traits.rs'],
 [('generated body: pre; let (i, f) = parser(i)?; post, per field in order',I+'gen/structs.rs gen_fn_body'),('attribute list -> parser expression',I+'structs.rs get_parser')],OBS)
prop('C02','Static byte order: field attribute, then object attribute, then called method',
 "Every inferred field parser uses the byte order of the field's own BigEndian/LittleEndian attribute if present, otherwise the object's (NomBE/NomLE or the top-level attribute), otherwise the one of the method called (parse_le: little; parse_be and parse: big). The choice reaches the innermost element through Option, Vec, arrays, pairs, Cond, Count, LengthCount elements, Verify, Map, Complete, Debug and nested or generic types, with fixed-endian objects behaving identically under all three methods. An explicit Parse expression and LengthCount's own length parser are never altered.",
 ['programs','inputs'],'all object kinds, attribute placements, nestings of containers/combinators and the three entry points; all inputs',
 'Tests check endianness for a few flat structs; the product of placement x wrapper x entry point x nesting is never exercised.',
 [I+'endian.rs',I+'parsertree.rs',I+'gen/generator.rs',I+'structs.rs','src/traits.rs'],
 [('get_local_endianness / set_object_endianness',I+'endian.rs'),('with_endianness',I+'parsertree.rs'),('has_impl_for_endianness (fixed endianness forwards)',I+'gen/generator.rs')],OBS)
prop('C03','SetEndian switches byte order dynamically from its position onward',
 "A SetEndian expression is evaluated exactly once, when parsing reaches it, and its value decides the byte order of that field and every following inferred parser of the same struct or variant (all of them for a top-level SetEndian), whatever method was called. Earlier fields, sibling variants and other types are unaffected, and a field's own BigEndian/LittleEndian wins over it. A later SetEndian replaces an earlier one from its own position onward.",
 ['programs','inputs','histories'],'all positions of one or several SetEndian attributes, expressions over parsed fields or extra arguments, all runtime values',
 'One documentation example with a top-level SetEndian; field-level SetEndian followed by other fields was not tested (and was broken, see known findings).',
 [I+'structs.rs',I+'endian.rs',I+'gen/enums.rs'],[('__endianness local and if/else parser selection',I+'structs.rs get_type_parser, get_pre_post_exec, parse_fields')],OBS)
prop('C04','Streaming and Complete: honest Incomplete, and none under Complete',
 "Without Complete, a truncated input yields Incomplete, and for integers, floats, Take, Tag, SkipX, AlignX, Move and MoveAbs the reported amount is exactly the number of missing bytes of the blocked element, so a caller that keeps feeding bytes reaches exactly the one-shot result. With Complete (on the field, or top-level for all fields of structs and enums, including fieldless ones) an Incomplete of the covered parser becomes Error(Complete) positioned at the start of that field, and all other outcomes are unchanged. Option and Vec turn an incomplete last element into absent/end-of-list instead of Incomplete.",
 ['programs','inputs','histories'],'all definitions, all ways of cutting an input into prefixes; positioning directives are outside Complete as documented',
 'Tests check one truncated input for two structs; correctness of Needed and of incremental feeding quantifies over all prefixes.',
 [I+'structs.rs',I+'parsertree.rs',I+'gen/fieldless_enums.rs',I+'enums.rs','src/traits.rs','src/helpers.rs'],
 [('config.complete wraps each field parser',I+'structs.rs parse_fields'),('ParserExpr::Complete',I+'parsertree.rs'),('opt(complete), many0(complete)','src/traits.rs')],OBS)
prop('C05','Alignment, skip and move directives compute positions exactly and in range',
 "AlignBefore/AlignAfter advance by the least number of bytes that makes the offset from the start of the object being parsed a multiple of n; SkipBefore/SkipAfter advance exactly n; Move and MoveAbs place the cursor at exactly current+n and start+n, in the same input. If the target is beyond the end the result is Incomplete, if before the start Error(TooLarge); offsets are relative to the object whose definition carries the attribute, also when it is nested or repeated. No argument value (0, negative, huge, extreme) makes them wrap, panic or leave the input, and Before directives act before the field, After directives after it, in attribute order.",
 ['programs','inputs'],'all argument values and expressions, all object start offsets and nestings, all input lengths',
 'Tests use constants on one top-level struct; arithmetic extremes and nested bases are not reached (Align 0 and Move(isize::MIN) panicked).',
 [I+'structs.rs'],[('quote_align, quote_skip, quote_move, quote_move_abs',I+'structs.rs')],OBS)
prop('C06','Selector enums pick the first matching variant in declaration order',
 "A derived selector enum parses exactly the first variant, in declaration order, whose pattern (literal, range, alternatives, destructuring, path, guard) matches the selector value, with the variant selected by `_` (the first of them) tried last wherever it is declared; if none matches the result is Error(Switch) at the current position with nothing consumed. Only the chosen variant's directives and parsers run, its fields follow the same rules as struct fields, and a unit variant consumes nothing unless it has a Parse attribute.",
 ['programs','inputs'],'all selector types and pattern sets, all declaration orders, all selector values, all inputs',
 'Tests use 3-4 literal selectors in order with `_` last; ordering with guards and a misplaced `_` was never checked (and was broken).',
 [I+'gen/enums.rs',I+'enums.rs',I+'meta/attr.rs',I+'gen/generator.rs'],[('gen_variants: match arms and default case',I+'gen/enums.rs'),('PatternAndGuard',I+'meta/attr.rs'),('parse_variant',I+'enums.rs')],OBS)
prop('C07','Fieldless enums map exactly their discriminants, at their repr width',
 "A derived fieldless enum reads exactly one integer of its repr type, with the byte order rules of any integer, and returns the variant whose discriminant (explicit, implicit, negative or extreme) equals it. Every other value is Error(Switch) positioned at the start of the enum, and a short input is Incomplete with the exact number of missing bytes (Error(Complete) under Complete).",
 ['programs','inputs'],'all repr types u8..u128/i8..i128, all discriminant sets, all integer values',
 'Tests sample two small enums; the full value range, signed/wide reprs and error position are not covered.',
 [I+'gen/fieldless_enums.rs',I+'enums.rs'],[('repr parser and if selector == E::V as repr chain',I+'gen/fieldless_enums.rs'),('get_repr',I+'enums.rs')],OBS)
prop('C08','Verify, ErrorIf, Tag and Exact accept exactly what they state',
 "A value is returned only if every Verify expression held on the parsed value, every ErrorIf expression was false when reached, every Tag matched byte for byte and Exact left no byte unread; conversely none of them rejects an input that satisfies it. Failures are recoverable errors: Verify gives Error(Verify) at the position before the checked parser, ErrorIf Error(Verify) before the field consumes anything, Tag Error(Tag) at its start (Incomplete when the input is a proper prefix of the tag) and Exact Error(Verify) at the unread remainder. Under Count, Cond, Option and Vec a Verify listed after the container attribute is applied to each element, one listed before it to the whole container.",
 ['programs','inputs'],'all conditions over the field and earlier fields, all positions in the attribute list, all inputs',
 'Tests show one passing and one failing value per attribute; acceptance is a two-sided statement over all values and attribute positions.',
 [I+'structs.rs',I+'parsertree.rs'],[('Verify/Tag expressions',I+'parsertree.rs'),('quote_error_if, Exact',I+'structs.rs get_pre_post_exec')],OBS)
prop('C09','Repetition, optionality and attribute nesting order',
 "Count parses exactly n elements, LengthCount exactly as many as its length parser returned, Cond parses iff its condition holds and otherwise yields None consuming nothing, Option yields None restoring the position on an ordinary error, Vec repeats until the first element error leaving the position after the last good element, and arrays parse exactly N; a fatal Failure always propagates. Combinator attributes nest in the order written, the first being outermost, each seeing the element type of the enclosing Option/Vec. Counts are not truncated to a narrower integer type, whatever the type of the expression.",
 ['programs','inputs'],'all nestings up to the type depth, all count/condition expressions over earlier fields, all inputs including failing and non-consuming elements and counts above 65535',
 'Tests fix counts of 2-4 elements with inputs that succeed; error, boundary and nested cases are not sampled.',
 [I+'structs.rs',I+'parsertree.rs','src/traits.rs'],[('get_parser recursion over the attribute list',I+'structs.rs'),('Cond/Count/LengthCount/Map expressions',I+'parsertree.rs'),('Option/Vec/array impls','src/traits.rs')],OBS)
prop('C10','User code runs exactly once, in order, with the documented bindings',
 "PreExec code runs immediately before the item it is attached to and PostExec immediately after it, in attribute order together with the positioning and ErrorIf directives, exactly once per time parsing reaches that point and never otherwise (top-level: before the first and after the last field, where the top-level PostExec can also read the object just built as struct_def, or enum_def for enums). The argument expression of every attribute is evaluated exactly once per use, sees previously parsed fields by name (tuple fields as _0, _1, ...), names bound by earlier PreExec/PostExec code, the declared ExtraArgs with the values passed by the caller, and the current and original input variables. Value, Ignore/Default and PhantomData fields consume nothing and produce the given, respectively the type's default, value.",
 ['programs','inputs','histories'],'all placements of several exec directives across fields, variants and top level, all failure points',
 'Tests only show that one PreExec binding is visible; ordering and exactly-once are statements about execution histories on failing paths too.',
 [I+'structs.rs',I+'gen/structs.rs',I+'gen/enums.rs',I+'gen/fieldless_enums.rs',I+'gen/generator.rs'],[('get_pre_post_exec',I+'structs.rs'),('get_call_args/get_fn_args for ExtraArgs',I+'gen/generator.rs')],['event log written by the user code in the attributes']+OBS)
prop('C11','Library Parse implementations decode every primitive and container correctly',
 "parse_be, parse_le and parse (big-endian) of u8..u128, i8..i128, f32 and f64 return the exact value of the leading size_of bytes in that order for every bit pattern and leave the rest; a shorter input is Incomplete with the exact missing count. String is a 32-bit big-endian byte count plus valid UTF-8 (Error(MapRes) positioned after the count otherwise) and LengthData a length of its integer type (u8 to u64) in the called byte order plus exactly that many bytes borrowed from the input, both Incomplete when short. Option, Vec, arrays of any N (0 included) and pairs apply the element's method of the same name in order and obey the container rules for errors and truncated input. All of them except String are generic over InputSlice: on any other input type that implements it they behave exactly as on a byte slice with the same content.",
 ['inputs'],'all byte inputs, all element types and nestings, N from 0 upward, lengths up to and beyond the input size',
 'Three unit tests parse four bytes each; the implementations hold for all values only by inspection.',
 ['src/traits.rs','src/helpers.rs'],[('impl_primitive_type!, String, Option, Vec, pair, array impls','src/traits.rs'),('LengthData','src/helpers.rs')],OBS)
prop('C12','No input makes a generated or library parser panic, abort or misuse memory',
 "For every definition whose own user expressions do not panic, every byte input and every selector or argument value, each of the three methods returns normally in debug (overflow-checked) and optimised builds: no panic, arithmetic overflow, out-of-range slice, stack or memory error (recursive definitions excepted as to stack depth: their nesting follows the input). Memory-safety instrumentation (address sanitizer, undefined-behaviour interpreter) reports nothing, and debug and optimised builds give the same outcome.",
 ['programs','inputs','configurations'],'all definitions, hostile inputs and argument values, build profiles',
 'Unit tests feed well-formed inputs only; several panics on hostile input were present (LengthData, Align 0, Move extremes).',
 [I+'structs.rs','src/helpers.rs','src/traits.rs',I+'gen/enums.rs',I+'gen/fieldless_enums.rs'],[('positioning arithmetic',I+'structs.rs'),('take-based splitting','src/helpers.rs')],['process exit status, sanitizer reports, panic hook']+OBS)
prop('C13','Memory and work are bounded by the input, not by lengths it declares',
 "When repeated elements consume at least one byte each, parsing an input of n bytes holds allocated at any time no more than a constant (of the definition) plus a constant factor of n, however large the counts and lengths written in the input or reached through Count, LengthCount, Take, String or LengthData are, and calls element parsers at most once per element present plus once for the failing one. Vec and Option never loop on an element that consumes nothing: the parser terminates with an error.",
 ['inputs','programs'],'all declared counts up to the maximum of their type, element types that consume at least one byte (plus non-consuming elements for Vec)',
 'No test declares a count larger than its input.',
 ['src/traits.rs','src/helpers.rs',I+'parsertree.rs'],[('many0/count/length_count/take from nom','src/traits.rs, '+I+'parsertree.rs')],['counting global allocator','element parser call counter'])
prop('C14','Results borrow the caller\'s buffer: remaining input and slices point into it',
 "The remaining input returned on success is always a suffix of the very slice that was passed in, and every byte-slice field (Take, Tag, LengthData, borrowed nested types) is exactly the consumed range of the caller's buffer at the position where it was parsed, not a copy and not longer or shorter. On Error or Failure the reported input position is likewise a sub-slice of the caller's buffer ending at its end. Parsing never writes to the buffer and never depends on bytes outside it.",
 ['programs','inputs'],'all definitions with borrowed fields, all inputs, all placements of the input inside a larger buffer',
 'Tests compare contents, never addresses; equal content at a wrong place passes them.',
 ['src/helpers.rs',I+'parsertree.rs',I+'structs.rs','src/traits.rs'],[('Take/Tag expressions',I+'parsertree.rs'),('LengthData','src/helpers.rs'),('Move re-slicing of the original input',I+'structs.rs')],['pointer offsets of returned slices relative to the caller buffer'])
prop('C15','GenericErrors: the outcome does not depend on the error type',
 "For a type deriving with GenericErrors, instantiating the parser with any ParseError type accepts the same inputs with the same values and remaining input, reports Incomplete/Error/Failure in the same cases with the same amounts, and for error types that record kind and position gives the same first kind and position as the default error. Children with generic errors receive the parent's error type, and the same holds for selector enums and ExtraArgs types, whose functions are generic over the error.",
 ['programs','inputs','configurations'],'all error types implementing ParseError (and FromExternalError where String is used), all definitions, all inputs',
 'Tests instantiate one error type on a few inputs.',
 [I+'gen/generator.rs',I+'gen/structs.rs','src/traits.rs'],[('generic_errors branches of gen_impl, gen_fn_decl, gen_parse',I+'gen/generator.rs'),('add_extra_where_predicates',I+'gen/structs.rs')],OBS)
prop('C16','Equivalent spellings of a definition derive equivalent parsers',
 "NomBE/NomLE and Nom with BigEndian/LittleEndian, If and Cond, Ignore and Default, string and parenthesised arguments, one attribute list and several, tuple and named fields, raw identifiers, attributes wrapped in cfg_attr, and any InputName derive parsers with identical outcomes on every input, and so does a definition produced by macro_rules, from fragments ($n:expr keeps its grouping, $t:ty) or from text passed through. Debug and DebugDerive never change an outcome, at field or top level. parse is the same function as parse_be (parse_le when the object is fixed little-endian).",
 ['programs','inputs','configurations'],'all definitions and all of their respellings, all inputs',
 'Each spelling is tested on its own example, never against its twin, and never in combination.',
 [I+'meta/attr.rs',I+'meta/mod.rs',I+'config.rs',I+'gen/generator.rs',I+'parsertree.rs'],[('parse_meta_content, from_ident aliases',I+'meta/attr.rs'),('InputName',I+'config.rs'),('DbgDmp',I+'parsertree.rs')],OBS)
prop('C17','Contradictory or misplaced attributes are rejected at compile time',
 "A definition with conflicting byte orders (two of big, little and SetEndian on one field or object, or against NomBE/NomLE), an attribute where it is not allowed (field-only at top level, top-level-only on a field), an unknown attribute, a missing argument, Count/LengthCount on a non-Vec, Cond on a non-Option, Verify or Debug on an unnamed field, an enum without selector and repr, a variant without Selector, a non-integer repr, SetEndian or ExtraArgs on a fieldless enum, a union, or a field type with no inferable parser never compiles into a parser. The minimally corrected definition compiles.",
 ['programs'],'all such definitions, in any surrounding context of valid attributes and fields',
 'The trybuild tests cover a handful of fixed cases; silently dropping an attribute in another context would pass.',
 [I+'endian.rs',I+'meta/attr.rs',I+'meta/mod.rs',I+'structs.rs',I+'enums.rs',I+'gen.rs',I+'gen/fieldless_enums.rs'],[('validate_endianness, two_or_more',I+'endian.rs'),('acceptable_tla/acceptable_fla',I+'meta/attr.rs')],['compiler verdict on generated crates'])
prop('C18','Feature configurations agree: std, alloc-only, no-alloc, and no_std users',
 "Every definition that the configuration supports compiles in no_std crates of every edition (2015, 2018, 2021, 2024) that forbid unsafe code, with default features, with only alloc, and with neither, and yields identical outcomes in each (without alloc, a truncated array is Incomplete instead of Error(Complete), everything else equal). Generated code refers only to core, nom and nom_derive paths. parse_be and parse_le of arrays use the element's method of that byte order in every configuration.",
 ['configurations','programs','inputs'],'the three feature sets, definitions without heap types for no-alloc, all inputs',
 'The test suite runs with default features only; the no-alloc array implementation is never compiled by it.',
 ['src/lib.rs','src/traits.rs','Cargo.toml',I+'gen/generator.rs'],[('cfg(feature = "alloc") implementations','src/traits.rs')],['compiler verdict on no_std crates']+OBS)
prop('C19','Derived, generic, borrowed and hand-written Parse implementations compose',
 "Any type implementing Parse by hand or by derive can be a field, an element of Option/Vec/array/pair or a type argument of a generic derived type (whose own bounds, where clause, const and lifetime parameters are kept), and a derived parser calls on it exactly parse_be or parse_le (for the byte order in force), once per element, never the plain parse method. A type that only implements parse gets it through both. The generated functions of a type can be called wherever the type can be named, whatever module and visibility it was defined with. Nesting a type changes nothing: parsing it inside another type gives the same value, errors and consumption as parsing it alone at that position, and its byte order, alignment base and Complete settings do not leak to or from the parent.",
 ['programs','inputs'],'all compositions of derived, generic and hand-written types, all inputs and start offsets',
 'A few fixed two-level compositions are tested, none observing which method is called.',
 [I+'structs.rs',I+'gen/generator.rs',I+'parsertree.rs','src/traits.rs'],[('CallParseBE/LE on the field type',I+'parsertree.rs'),('where predicates for type parameters',I+'gen/generator.rs')],['call log of hand-written Parse implementations']+OBS)
prop('C20','Parsing is a pure function of input bytes and arguments',
 "The outcome of any derived or library parser depends only on the bytes of its input, the method called and its arguments: not on the address or alignment of the buffer, on bytes before or after the slice, on previous calls or on concurrent calls in other threads. Extending the input after a success never changes the value or the amount consumed unless the definition contains a construct that looks at the end of input (Vec, Option, Complete, Exact, or an expression over the input).",
 ['schedules','histories','inputs','programs'],'all interleavings of calls, all buffer placements, all suffixes, all definitions',
 'Tests call each parser once, from one thread, on one buffer.',
 ['src/traits.rs','src/helpers.rs',I+'structs.rs',I+'gen/structs.rs'],[('positions computed from pointer differences',I+'structs.rs quote_align/quote_move')],OBS)
prop('C21','Debug reports exactly the failures it wraps; DebugDerive the derived code',
 "With `#[nom(Debug)]` on a field, each failed parse of that field writes one report to standard output (the one of nom's `dbg_dmp`) which names the field, shows the error the field's parser returned, and dumps the bytes from where the field started; with `#[nom(Debug)]` on a struct or enum this holds for each of its fields, those of every variant included (a field with its own Debug in such an object reports once for each of the two). Nested parsers that fail inside report first, each in its own name. Successful parses and fields without the directive report nothing, and Debug never changes the value, the remainder or the error. `#[nom(DebugDerive)]` prints, while compiling, the generated implementation of the object that asks for it and of no other, and the printed text is the code that runs: put in the place of the derive it compiles and behaves the same.",
 ['programs','inputs'],'all definitions, all placements of Debug and DebugDerive, all failing inputs',
 'No test looks at what Debug or DebugDerive prints; whether every failure is reported once, and under the right name, depends on the path taken.',
 ['src/docs.rs',I+'structs.rs',I+'config.rs',I+'gen/generator.rs',I+'parsertree.rs'],[('DebugDerive output',I+'gen/generator.rs'),('Debug wrapper',I+'structs.rs')],OBS)
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
print(len(P))
