"""Per property: what decides it (DESIGN.md), and the technique field of the manifest."""
DESIGN = dict(
C01="""*Specified*: `Sem!DisplayOf`/`FieldText` over `FormatText!SplitFormat`.  *Model* `MC_Format`: formats given piece by piece (texts, escaped braces, fields with every kind of own format, nested paths, the variant name): the text written is the concatenation of the pieces' texts, each piece's text being given without reference to format strings; which of variant, type and default format counts; the caller's parameters do not reach the parts.
*Bound to the code by* the family (`display`, `padded`: with the caller's parameters), and the same on curated, random and big declarations.
*Oracle*: the written text, character by character.""",
C02="""*Specified*: `RoundTrip!RoundTrips` decides from the declaration alone that its texts can be cut in one way only (alphabets and first characters of what a field writes against the literal that follows, variants of different shape).  For those, an `rt` event (display, then parse) must give back the value; for all others the result must still be what `Sem` computes.  *Model* `MC_Round`: declarations `RoundTrips` says yes to do round trip, for every value, and for every text they accept; distinct values have distinct texts; more generally any value whose text the pattern can cut in one way only (by enumeration of all cuts, `Lang`) and no earlier variant takes comes back.
*Bound by* the family and random declarations biased towards unambiguous ones (`rand.unamb_case`), nested, generic and big ones.""",
C03="""*Specified*: the matcher of `Regex` applied to `Decl!ContainerPat`.  *Model* `MC_Split`: against `Lang`, the set of all cuts of the input and the preference among them (leftmost field shortest first): accepted iff a cut exists, the cut is the preferred one, no other cut is tried when a conversion fails, literals are matched verbatim.
*Bound by* the family on every text of the scope, and random formats with repeated separators, metacharacters, newlines.""",
C04="""*Specified*: `Sem!ParseNamed`.  *Model* `MC_Enum`: the variant chosen by an enum, expressed by what the enums in which all other variants are ignored do; pairs and triples of 23 variant bodies (fixed texts, fields, regexes, `new`, ignored, nested enums) and type-level formats; errors of variants are not passed on.
*Bound by* the family on every text, random enums with overlapping variants.""",
C05="""*Specified*: `Style!StyleApply` (transducer).  *Model* `MC_Style`: all identifiers up to 4 (thorough 5) characters over letters, digit, underscore, plus non-ASCII ones, under 13 styles: equal to the word-based `StyleDecl`; laws that relate styles to each other; a text is read as the first variant whose styled name it is; digits, letters, marks of other scripts; 14 x 14 pairs of enum and variant style.
*Bound by* one enum per style with every identifier of the scope as a variant, displayed and parsed back, plus random enums.""",
C06="""*Specified*: lazy optional groups in `Decl!FieldNodes`, `Sem!ConvField`, `FieldText`.  *Model* `MC_Opt`: None is preferred, Some is the inner type's value, present but unconvertible is an error, Display of Some equals the plain field's; combined with formats, `with`, regex, regex_infer, parameters, defaults.
*Bound by* the family (texts and values), random declarations.""",
C07="""*Specified*: `Decl!FormatNode`, `Sem!WriteWith`/`ParseWith`.  *Model* `MC_With`: formats whose patterns have groups, nested groups, alternations, flags, any-string, between other fields; a field is converted by its format from its own substring only, other fields' captures do not move.
*Bound by* the family and random declarations.""",
C08="""*Specified*: `Regex` (syntax trees, flags, captures), `Decl!LabelCaps`.  *Model* `MC_Regex`: regexes on structs, variants, enums and fields; the whole input is matched; groups that took no part give the empty text; flags and alternations stay inside.
*Bound by* the family and random regexes rendered in several notations.""",
C09="""*Specified*: `Decl!TypeNode`/`Sem!RegexAccepts`.  *Model* `MC_Infer`: the reported regex matches exactly the union of the variants' shapes (by enumeration of cuts); accepts whatever FromStr accepts and whatever Display of built-in types writes; a `regex_infer` field beside others is confined to its own part.  *Bound by* `rx` events: the reported regex is asked whether it matches the whole of accepted, rejected, edited and look-alike texts, for all built-in and derived types, nested in `regex_infer` fields at field, variant and type level.""",
C10="""*Specified*: `Sem!Construct`.  *Model* `MC_Default`: the labels of the pattern say what the text supplies; every leaf not supplied is the declared default, every leaf supplied is the parsed one; accepted iff every field is supplied or defaulted.  *Bound by* the family (subsets of fields, struct/field/`default_fields`, nested paths two levels deep, regexes with optional groups), random declarations.""",
C11="""*Specified*: `Sem!Construct` with `new` (argument order, rejecting values, marks that show that the expression was used).  *Model* `MC_New`: a `new` declaration in terms of what the same declaration without `new` parses: accepted iff that is and the expression accepts those fields, value and messages accordingly; an enum takes the first variant that gives something.  *Bound by* the family and random declarations of all result kinds (Self, Option, Result) in structs and variants, big argument lists, names that collide with internal ones.""",
C12="""*Specified*: `FormatText!ParseSpec` and std's rendering, transcribed.  *Model* `MC_Spec`: all combinations of fill, alignment, sign, `#`, `0`, width, precision and trait for every scalar type, at type, variant, field, nested path, `opt`: the same text at every place; laws about padding (length, where the fill goes), precision, integers in each radix, fractions.  *Bound by* the family and random parameters on all scalar types, names, `self`, nested paths, opt and field formats; the real std formatting of the same value is what the generated code ends up calling, the specification is the independent oracle.""",
C13="""*Specified and model checked*: `Machine` (see below).  *Bound by* schedules replayed on real threads, histories in fresh processes, one process per type, instantiations whose patterns vary.""",
C14="""*Specified*: `Bounds`.  *Model* `MC_Bounds`: for every declaration of a family (types of fields x formats x kinds x explicit lists at type, variant, field for both derives) and every instantiation with marker types that have exactly chosen traits: without explicit lists the where clause is exact, a list replaces what is below, from_str lists replace display ones.
*Bound by* asking the compiler which instantiations implement the derived trait (autoref specialisation in the harness, so one crate answers thousands of questions).""",
C15="""*Specified*: `Accept!Errs`.  *Model* `MC_Accept`: small declarations, right and wrong (formats x field types, formats x field attributes, types x attributes, regexes x types, shapes, enums; about 2,100, four fifths of them wrong): two derives together are accepted iff each alone is; in an accepted one every field is determined, every label and shown path leads to a field of a fitting type; every text and value then has an outcome.  *Bound by* `derive` events: that family, curated, random and mutated declarations (1,200 quick, thousands thorough); accepted by the compiler iff the specification has no complaint, in both directions; accepted ones also run without panics.""",
C16="""*Specified*: `Decl!Resolve`, `WithOf`, `PatSource`, `FieldNodes` (precedence).  *Model* `MC_Attr`: lists of attributes of both kinds, in any order and number, on type, variant and field, mean what one attribute of each kind with the last of what each kind says (of `default_fields`, all) means; Display is what it is without the from_str ones; what delimits a field is its regex, else `with`, else regex_infer, else the shortest match.  *Bound by* the family and random declarations with several attributes of both kinds in any order on the same item.""",
C17="""*Specified*: `Sem` is the same in both configurations; a FromStr derive that needs no pattern must compile without std.  *Model* `MC_Config`: the family of declarations that need no pattern: only fixed texts are accepted, values are determined by variant and defaults.  *Bound by* building every declaration twice (`#![no_std]` harness crates without the feature); only differences between the two count.""",
C18="""*Specified*: every `parse` step has a value or an error; a panic or hang is never allowed.  *Bound by* the families of `MC_Regex`, `MC_With`, `MC_Opt` and random declarations on hostile inputs (control and regex-special characters, look-alikes, doubled separators), on texts of 70001 and more characters (`lib/pump.py`), and with regexes whose programs take a megabyte.""",
C19="""*Specified*: `Sem!Construct` gives the set of admissible messages (which of several failing fields is named is open), `Fail` elsewhere.  *Model* `MC_Msg`: a field is blamed iff the preferred cut of the text exists and its own substring does not convert; enums say nothing.  *Bound by* the family, parse events with their messages on struct and enum declarations with nested paths, tuples, raw identifiers.""",
C20="""*Specified*: behaviour depends on the declaration only; `Trace` has no environment.  *Bound by* the same declarations in hostile environments: every prelude name shadowed, types renamed to prelude names, traits with conflicting methods in scope, fields and parameters named like internals, raw identifiers, the crate renamed or re-exported and reached by `crate = path`.""",
C21="""*Specified*: `WriteWith`/`ParseWith` of `join`, nested.  *Model* `MC_Join`: parsing is cutting at every occurrence of the delimiter and parsing the pieces; never an empty list; writing one item more appends delimiter and item; lists whose texts do not overlap the delimiter come back; in a struct the field's substring is parsed like the whole of a lone one.  *Bound by* the family and random lists with delimiters that are empty, multi-character, overlapping, regex-special, over all item formats, inside opt, structs, other lists and recursive types.""",
C22="""*Specified*: the modules know declarations, not their source text; `lib/spell.py` writes one declaration in many ways: other paths and parentheses for types, literals raw, escaped or continued, attributes split, reordered, under `cfg_attr`, mixed with docs, derive lists cut and shuffled, bounds moved, discriminants, visibilities, whole declarations out of `macro_rules!`, or with literals, types, identifiers, expressions and attributes passed in as fragments.  *Bound by* the curated and random declarations of all other checks respelled at random, in editions 2018, 2021 and 2024; the random declarations of the other checks are respelled with probability 0.3 too.""",
C23="""*Specified*: texts in which a part fails by itself carry a mark (`Sem!FAULT`); `WrittenTo(t, n)` is what reaches a writer that takes n characters.  *Model* `MC_Writer`: the pieces of a format as a state machine - chunks of any size, a writer that refuses a chunk or takes a part of it, parts that fail by themselves; in every state what was written is a beginning of the text, `ok` only with all of it, a failure only if the writer is too small or a part is faulty, nothing after the first failure, and the writer of the traces sees exactly `WrittenTo`.  *Bound by* the family and all curated and random declarations (with many fields of a type whose Display fails on BEL, in every position: optional, listed, nested, under parameters and custom formats), each value displayed into writers of every capacity from 0 to one more than its length; the writer counts what it is given after its failure.""",
)
TECHNIQUE = {}
NOTE = {}
