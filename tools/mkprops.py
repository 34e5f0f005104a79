import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=["src/main/java/io/fastprintf/"+f for f in files],
        mechanism=[dict(name=a,where="src/main/java/io/fastprintf/"+b) for a,b in mech],
        observe_at=observe,hook_needed=None)))
OUT=["returned String of format(...)"]
p("C01","%d and %i print the exact decimal value for every flag, width and precision",
"For every integer argument (byte, short, int, long or BigInteger) %d and %i print '-' if the value is negative, else '+' if the + flag is given, else ' ' if the space flag is given; then the decimal digits of its magnitude, left-padded with '0' to the precision (zero with precision 0 prints no digit); and the whole is space-padded to the width, on the right with the - flag and on the left otherwise. "
"With the 0 flag, no - flag and no precision, zeros after the sign fill the width instead of spaces. "
"The # flag changes nothing.",
["inputs","configurations"],"all 2^8/2^16/2^32/2^64 values of the primitive types (BigInteger: all values of up to 64 bits, plus symbolic larger values), all 32 flag sets, width absent or 0..65536, precision absent or 0..65536",
"Tests sample a few dozen value/flag/width triples; the space of 2^64 values times flags times widths up to 65536 has threshold-dependent code (cache of small values, digit-count, builder thresholds) no sample settles.",
["appender/SeqFormatter.java","number/IntForm.java","number/LongWrapper.java","number/IntWrapper.java","number/BigIntegerWrapper.java"],
[("zero padding and sign placement","appender/SeqFormatter.java"),("decimal digits of the magnitude","number/LongWrapper.java")],OUT)
p("C02","%u, %o, %x and %X print the exact unsigned value of the argument's own width",
"For every integer argument %u, %o, %x and %X print the two's-complement value of the argument, read as unsigned at the argument's own bit size (8, 16, 32 or 64), in base 10, 8, 16 and 16 with capitals; a negative BigInteger is rejected with PrintfException. "
"The digits are zero-padded to the precision (zero with precision 0 prints no digit), with # a non-zero value gets the prefix 0x / 0X or, for octal, one leading 0 that counts toward the precision, and a zero value gets no 0x prefix and for octal always prints at least one 0; with the 0 flag, no - flag and no precision, zeros after the prefix fill the width exactly, otherwise spaces do. "
"The + and space flags change nothing.",
["inputs","configurations"],"all values of each primitive width, all 32 flag sets, width absent or 0..65536, precision absent or 0..65536",
"Tests cover a handful of values; sign-extension at each width, prefix/precision/width interplay and the zero value with each flag set form a product space they do not enumerate (and in fact three members of it were wrong).",
["appender/SeqFormatter.java","number/ByteWrapper.java","number/ShortWrapper.java","number/IntWrapper.java","number/LongWrapper.java","number/BigIntegerWrapper.java"],
[("prefix, precision and zero padding","appender/SeqFormatter.java"),("unsigned rendering per width","number/ByteWrapper.java")],OUT)
p("C03","%f prints the value correctly rounded to the requested number of decimals",
"For every finite double, float or BigDecimal, %f prints the decimal value (for double and float: the shortest decimal that identifies the double; for BigDecimal: its exact value) rounded half-up in magnitude to exactly the requested number of fraction digits (6 by default), with no decimal point when that number is 0 unless # is given. "
"A minus sign appears exactly when the argument is negative (including -0.0), otherwise the + or space flag supplies the sign character, and width, - and 0 pad the field, zeros going between sign and digits. "
"NaN prints NaN, infinities print Infinity, -Infinity or (with +) +Infinity, always padded with spaces only.",
["inputs","configurations"],"every shortest-decimal (digits, exponent) pair a double can have, every BigDecimal with up to 18 unscaled digits and bounded scale (longer ones with symbolic digits up to 45), precision absent or 0..65536, all flag sets, width absent or 0..65536",
"Rounding carries (9.995, 0.5, 999.9..) and digit/precision alignments depend on the digits of the value; tests check tens of values out of 2^64.",
["appender/SeqFormatter.java","number/DoubleWrapper.java","number/BigDecimalWrapper.java","util/internal/FormattedFPDecimal.java"],
[("plain layout and rounding","util/internal/FormattedFPDecimal.java"),("BigDecimal plain layout","number/BigDecimalWrapper.java"),("sign and justification","appender/SeqFormatter.java")],OUT)
p("C04","%e prints a correctly rounded normalised mantissa and a correct exponent",
"For every finite double, float or BigDecimal, %e prints one non-zero leading digit (0 for zero), a decimal point and exactly the requested number of fraction digits (6 by default; no point for 0 unless # is given), then 'e', the exponent's sign and at least two exponent digits, such that the printed number is the decimal value rounded half-up in magnitude to that many significant digits. "
"Zero prints an all-zero mantissa with exponent +00. "
"Sign, width, - and 0 behave as for %f.",
["inputs","configurations"],"every shortest-decimal pair of a double, every BigDecimal with up to 18 unscaled digits and bounded scale (longer ones with symbolic digits up to 45), precision absent or 0..65536, all flag sets, width absent or 0..65536",
"Exponent width (9/10/99/100/308), carry into a new leading digit and digit/precision alignment are value dependent; tests sample.",
["appender/SeqFormatter.java","number/DoubleWrapper.java","number/BigDecimalWrapper.java","util/internal/FormattedFPDecimal.java"],
[("scientific layout, rounding and exponent digits","util/internal/FormattedFPDecimal.java"),("BigDecimal scientific layout","number/BigDecimalWrapper.java")],OUT)
p("C05","%g picks plain or scientific notation by the rounded value and trims zeros",
"For every finite double, float or BigDecimal, %g rounds the decimal value half-up to P significant digits (6 by default, 0 counts as 1); if the rounded value v satisfies 1e-4 <= v < 10^P it is printed in plain notation, otherwise in scientific notation with at least two exponent digits. "
"Trailing fraction zeros and a trailing point are removed unless # is given; with # exactly P significant digits are printed, and a decimal point too unless it is the one digit of a scientific form. "
"Zero prints 0 (with #: 0 followed by a point and P-1 zeros); sign, width, - and 0 behave as for %f.",
["inputs","configurations"],"every shortest-decimal pair of a double, every BigDecimal with up to 18 unscaled digits and bounded scale (longer ones with symbolic digits up to 45), precision absent or 0..65536, all flag sets, width absent or 0..65536",
"The switch between notations depends on rounding at the boundary (999999.5, 0.000099999995) and on the number of digits; tests sample a few boundaries on doubles only.",
["appender/SeqFormatter.java","number/DoubleWrapper.java","number/BigDecimalWrapper.java","util/internal/FormattedFPDecimal.java"],
[("general layout","util/internal/FormattedFPDecimal.java"),("zero trimming and padding","appender/SeqFormatter.java"),("BigDecimal general layout","number/BigDecimalWrapper.java")],OUT)
p("C06","%a prints a hexadecimal form that denotes the value, rounded half-even",
"For every finite double or float, %a without precision prints 0x, the hexadecimal significand and the binary exponent with an explicit sign as Java's Double.toHexString does, denoting exactly the argument. "
"With precision p it prints exactly p fraction digits (at least 1) of the normalised significand rounded half-to-even at that digit; precisions of 13 and more add trailing zeros to the exact form. "
"Sign flags, width, - and 0 apply as for %f with zeros going after 0x, -0.0 keeps its minus sign, NaN and infinities print as for %f, and BigDecimal arguments are rejected with PrintfException.",
["inputs","configurations"],"all 2^64 bit patterns of a double (and all 2^32 of a float), precision absent or 0..65536, all flag sets, width absent or 0..65536",
"Half-even ties, carries into the next binade and to overflow, and subnormal normalisation are single bit patterns among 2^64; tests sample.",
["appender/SeqFormatter.java","number/DoubleWrapper.java","util/internal/DoubleConsts.java"],
[("bit-level rounding","number/DoubleWrapper.java"),("0x and padding","appender/SeqFormatter.java")],OUT)
p("C07","Every double is converted to the same shortest decimal as JDK 21, on every JVM",
"For every double, the decimal digits and exponent that %f, %e and %g start from are exactly those of JDK 21's Double.toString, whatever Java version the library runs on. "
"The arithmetic used where the runtime lacks a 128-bit high multiply gives the exact high 64 bits for every pair of operands.",
["inputs","configurations"],"all 2^64 bit patterns of a double; all 2^128 operand pairs of the portable multiply",
"2^64 doubles cannot be sampled meaningfully: an error in one of the 617 table entries or one comparison affects a vanishing fraction of values.",
["util/internal/DoubleToDecimal.java","util/internal/MathUtils.java","util/internal/MultiplyHigh.java","util/internal/FormattedFPDecimal.java"],
[("shortest-decimal search","util/internal/DoubleToDecimal.java"),("power-of-ten table","util/internal/MathUtils.java"),("portable multiplyHigh","util/internal/MultiplyHigh.java")],["digits printed by %e with 17 digits","returned String of format(...)"])
p("C08","%s and %c print the argument's text unchanged, truncated only by precision",
"For every argument, %s prints exactly the argument's text (null as null, booleans as true/false, numbers as their Java toString, byte arrays as Base64, other arrays as bracketed element lists, any other object by its toString, any CharSequence by its characters), cut to the first p characters when a precision p is given. "
"%c prints the character itself, or the first character of a text argument, and rejects an empty text. "
"The result is space-padded to the width, on the right with the - flag and on the left otherwise, and no other flag has any effect.",
["inputs","configurations"],"all char contents of texts up to the length bound including surrogates, all int/long/short/byte/char/boolean values, precision and width absent or 0..65536, all flag sets, CharSequence implementations other than String",
"The text is passed by reference through lazily evaluated pieces with different fast paths by length and type; tests use short ASCII samples.",
["appender/SeqFormatter.java","seq/Seq.java","seq/StrView.java","seq/LazySeq.java","traits/CharSequenceTraits.java","traits/IntTraits.java","traits/LongTraits.java","traits/ObjectTraits.java"],
[("text extraction","traits/CharSequenceTraits.java"),("truncation","appender/SeqFormatter.java"),("declared length of lazily rendered numbers","util/Utils.java")],OUT)
p("C09","The field width pads to exactly the requested size and never truncates",
"For every conversion, argument and flag set, printing with width w gives a result of exactly max(w, n) characters, n being the length printed without a width. "
"Unless zero padding applies the result is that text with spaces added on the left (on the right with the - flag); with the 0 flag (and no - flag) on a number, the result is that text with zeros inserted directly after its sign and 0x prefix.",
["inputs","configurations"],"all conversions, all flag sets, width 0..65536, precision absent or 0..65536, all argument values of the per-conversion domains",
"It is a relation between two runs over all values; tests compare single outputs with literals.",
["appender/SeqFormatter.java","seq/Repeated.java","seq/Concat.java"],[("justification helpers","appender/SeqFormatter.java")],OUT)
p("C10","A '*' width or precision acts exactly like the same number written in the format",
"Formatting with * (or .*) and an integer argument v in the int range gives the same output as writing v literally in the format; a * width of 0 acts as no width, a negative * width acts as the - flag with width |v| and a negative * precision acts as no precision. "
"A width or precision above 65536 (in magnitude, for a width) is rejected with PrintfException whether literal or from an argument, for every int value.",
["inputs","configurations"],"all 2^32 values of each * argument (literal equivalence for 0..65536 and negatives), every conversion, all flag sets",
"The accept/reject boundary and the sign handling run over all ints, including the two's-complement extreme that tests do not try.",
["appender/DefaultAppender.java","FormatContext.java"],[("argument-supplied width and precision","appender/DefaultAppender.java"),("range check","FormatContext.java")],OUT+["exception type"])
p("C11","Compiling accepts exactly the documented grammar and reports error positions",
"A format compiles if and only if every % starts %% or %[flags][width][.precision]conversion with flags from \"-+ #0\" used at most once each, decimal or * width and precision that fit an int and are at most 65536, a known conversion letter, and for t/T an optional {pattern} whose closing brace is the first one outside single quotes and which is a valid non-empty date-time pattern. "
"Any other format fails with PrintfSyntaxException (PrintfException for an out-of-range width or precision), never with another exception or error, however long the format is; the reported index lies within the format and points at the offending character. "
"Text outside directives is reproduced character for character and %% prints one %.",
["inputs","programs"],"all format strings up to the length bound over all 65536 char values; nesting/recursion depth independent of the number of directives",
"Tests list about a hundred formats out of 65536^n; none is long.",
["Compiler.java","Flag.java","Specifier.java","FormatContext.java","PrintfSyntaxException.java","appender/FixedStringAppender.java"],
[("recursive-descent parser","Compiler.java"),("flag and conversion tables","Flag.java")],["compile(...) result or exception type and index","returned String of format(...)"])
p("C12","Directives consume arguments strictly in order and missing ones are reported",
"Each directive takes, in this order, one argument for a * width, one for a .* precision and one for its value (%% and plain text take none; a complete directive ending in n or % does take one and ignores it), and the output is the concatenation of the directives' outputs with the literal text in format order. "
"If the arguments run out, formatting fails with PrintfException; surplus arguments are ignored.",
["programs","inputs"],"all sequences of directives and literals up to the bound, with 0..n+1 arguments of symbolic value",
"Tests use fixed formats with matching argument lists.",
["Compiler.java","FastPrintfImpl.java","appender/DefaultAppender.java","appender/FixedStringAppender.java","ArgsImpl.java"],
[("argument iterator","appender/DefaultAppender.java")],OUT+["exception type"])
p("C13","The library's character sequences behave exactly like the strings they denote",
"Every sequence built with the library's public sequence factories and combinators (wrapping and slicing strings and arrays, repeating a character, lazy rendering, concatenation, prepending, sub-sequence, upper-casing) has the length, characters, first-index-of, sub-sequences, upper-case form and text of the java.lang.String it denotes, and appends that same text to a StringBuilder and to any other Appendable. "
"Out-of-range indexes throw IndexOutOfBoundsException (for sub-sequences of the empty sequence: IllegalArgumentException), and no operation changes an existing sequence.",
["programs","inputs"],"all compositions of the combinators up to the bound with symbolic characters, repeat counts and slice indexes",
"Tests check hand-picked compositions; slices across piece boundaries over all index pairs are not covered (and were wrong).",
["seq/Seq.java","seq/StrView.java","seq/CharArray.java","seq/Repeated.java","seq/Concat.java","seq/SeqArray.java","seq/LazySeq.java","seq/AtomicSeqIterable.java","seq/EmptySeq.java"],
[("piecewise slicing and indexing","seq/AtomicSeqIterable.java"),("array-append fast path","seq/Concat.java")],["length/charAt/indexOf/subSequence/toString/appendTo results"])
p("C14","All output targets, cache settings and call histories give the same text",
"Formatting to a String, appending to a StringBuilder, appending to any other Appendable, and doing any of these with the thread-local cache enabled or another initial capacity all produce the same characters, appended after whatever the target already held, and the same target is returned. "
"This holds regardless of what was formatted before with the same formatter: after calls that failed part-way, after very large outputs, and when an argument's toString itself uses the formatter. "
"An IOException of the target surfaces as UncheckedIOException, and reconfiguring a formatter leaves the original unchanged.",
["histories","configurations","fault_sequences"],"all sequences of up to 3 calls (succeeding, failing at any directive, re-entrant, outputs on both sides of the retained-capacity limit) over all configurations and targets, with symbolic values and capacities",
"Tests exercise each target and setting once with a short string; failure and re-entrancy histories with a retained buffer are not explored.",
["FastPrintfImpl.java","FastPrintf.java","seq/Seq.java"],[("retained builder reset","FastPrintfImpl.java"),("append to Appendable","seq/AtomicSeqIterable.java")],OUT+["contents of the target","exception type"])
p("C15","Equal values print the same however passed, and args report them back",
"A value prints identically under every conversion (other than %p) whether passed as varargs, from an iterable, as a boxed object, or by the typed primitive put method of the argument builder, and an argument list reports back, in order, exactly the values that were put, null included. "
"The builder's put-or-null methods stand for the value or for null, and an argument list can be formatted any number of times with the same result.",
["inputs","configurations"],"all values of every primitive type and null, each through every way of putting it; all conversions",
"Each entry point has its own dispatch on the argument's class; tests compare a few values per type.",
["Args.java","ArgsImpl.java","traits/RefSlot.java","traits/IntTraits.java","traits/FormatTraits.java"],
[("type dispatch","ArgsImpl.java"),("small-int cache","traits/IntTraits.java")],OUT+["values() of the argument list"])
p("C16","Concurrent use of one formatter gives each thread its own correct output",
"Any number of threads may compile, configure and format with the same formatter object at once, cached or not; every call returns what it would return running alone. "
"No formatting call modifies state that another thread's call can observe.",
["schedules","inputs","histories"],"all interleavings of the threads' shared-memory accesses, all argument values within the bounds, all cache configurations",
"Tests run single-threaded or with one lucky schedule.",
["FastPrintfImpl.java","seq/LazySeq.java","traits/IntTraits.java","seq/Seq.java"],[("immutable compiled state and thread-confined builder","FastPrintfImpl.java")],OUT)
p("C17","%t and %T print the instant or date the argument denotes with the chosen pattern",
"For a date-time argument (java.time value, Date, Calendar) %t prints it with the pattern given in braces, or by default in ISO offset date-time form for instants, zoned and offset values and in ISO local form for local dates and date-times; instants are printed in the system zone, and any argument or pattern that cannot be so printed fails with PrintfException. "
"An integer argument n denotes n seconds since the epoch when 0 <= n <= 2^32-1 (an int is read as unsigned), n milliseconds when larger, and is rejected when negative (IllegalArgumentException); %T prints the upper-cased text and width and - pad as for %s.",
["inputs","configurations"],"all int and long values, all epoch-second/nano values of an instant, each supported argument type, with and without pattern, width 0..65536",
"The seconds/milliseconds split and unsigned reading are thresholds in a 2^64 space; tests use a few dates.",
["appender/SeqFormatter.java","traits/TemporalAccessorTraits.java","traits/LongTraits.java","traits/IntTraits.java","traits/ObjectTraits.java","util/Utils.java"],
[("integer to instant","util/Utils.java"),("default formatter choice","appender/SeqFormatter.java")],OUT+["exception type"])
p("C18","Every conversion of every argument type yields its coercion or PrintfException",
"Every pairing of a conversion with an argument of any supported type either prints the defined coercion of the argument (integers from text by decimal parsing, from float by truncation of the int range, from double by truncation of the long range, from BigDecimal by its integer part, from booleans as 1/0, from characters as their code, from dates as epoch milliseconds; floats from integers as the nearest double, from text by parsing, from dates as epoch seconds) or fails with PrintfException. "
"No other exception type and no default output appears for unconvertible arguments such as null or non-numeric text (negative integers under %t aside).",
["inputs","configurations"],"all conversions times all argument types with symbolic values, including null, empty and malformed text, NaN and infinities, extreme magnitudes",
"It is a 20 by 20 matrix with values in each cell; tests fill some cells with one value.",
["traits/ObjectTraits.java","traits/CharSequenceTraits.java","traits/DoubleTraits.java","traits/FloatTraits.java","traits/BigDecimalTraits.java","traits/BigIntegerTraits.java","traits/NullTraits.java","traits/FormatTraits.java"],
[("coercion methods","traits/FormatTraits.java")],OUT+["exception type"])
p("C19","Output is the same on Java 8 and on newer runtimes with faster primitives",
"On runtimes that lack the newer string-builder repeat and high-multiply operations the library prints exactly the same text as on runtimes that have them, for every run length and every operand.",
["configurations","inputs"],"both runtime capability sets; all repeat characters and counts 0..65536; all argument values of the numeric domains",
"The build runs the tests on one JVM only, so one of the two code paths is never executed by them.",
["util/internal/MultiplyHigh.java","seq/Repeated.java"],[("capability detection and fallback","util/internal/MultiplyHigh.java"),("repeat fallback","seq/Repeated.java")],OUT)
p("C20","%p identifies the object by class and identity hash, never by content",
"%p prints null for null and otherwise the argument's class name, '@' and the lower-case hexadecimal identity hash, independent of the object's own toString, equals or hashCode, space-padded to the width. "
"Arguments put as primitives are rejected with PrintfException, boxed ones are not.",
["inputs","configurations"],"all identity hash values, all argument types, all flag sets, width 0..65536",
"Identity hashes are chosen by the JVM; tests see whatever value occurs.",
["appender/SeqFormatter.java","traits/RefSlot.java"],[("identity rendering","appender/SeqFormatter.java"),("primitive marker","traits/RefSlot.java")],OUT+["exception type"])
p("C21","Upper-case conversions print the ASCII upper-case of their lower-case twins",
"For every argument and every flags, width and precision, %S, %X, %E, %F, %G, %A and %T print exactly the text of %s, %x, %e, %f, %g, %a and %t with the letters a-z replaced by A-Z and every other character, including all non-ASCII ones, unchanged.",
["inputs","configurations"],"all char contents of texts up to the bound, all numeric values of the per-conversion domains, all flag sets, width and precision 0..65536",
"Upper-casing is implemented separately for each kind of text piece and skipped when a scan says nothing changes; tests use ASCII samples.",
["appender/DefaultAppender.java","util/Utils.java","seq/StrView.java","seq/CharArray.java","seq/Repeated.java","seq/LazySeq.java","seq/Concat.java"],
[("upper-casing of each piece","util/Utils.java")],OUT)
p("C22","A syntax error reports the format, the index and a message pointing at it",
"The exception for a malformed format reports the format unchanged, the index of the offending character and a description; its message is the description, then ' near index ' and the index when the index is not negative, then on the next line the format and, when the index lies inside the format, on a third line as many spaces as the index followed by '^'. "
"The same holds for syntax exceptions created directly with any description, format (null prints as null), index and cause, each of which is reported back.",
["inputs"],"all formats up to the bound of arbitrary chars, alone and between other text and directives; every int as index",
"Tests look at the message of a few formats; indexes at and beyond the ends of the format and errors late in a format are not covered.",
["PrintfSyntaxException.java","Compiler.java"],[("message text","PrintfSyntaxException.java")],["message, index, format and description of the exception"])
p("C23","The text of an argument list is its values as %s prints them",
"The text (toString) of an argument list is '[', the values in the order they were put, each exactly as %s prints it (null as null) and separated by ', ', and ']'. "
"Asking for the text does not change the list or what is printed with it.",
["inputs","histories"],"lists of up to three values out of 18 kinds, all values of every primitive type, arbitrary chars in texts",
"Tests print a few lists of constants.",
["ArgsImpl.java","traits/RefSlot.java"],[("listing of the values","ArgsImpl.java")],["toString of the argument list"])
p("C24","Array-made sequences are equal exactly when their texts are, hash codes included",
"Two non-empty character sequences made of char arrays (whole or in part, upper-cased, or cut to a sub-sequence of at least two characters) are equal exactly when they hold the same characters, whatever surrounds them in the arrays, and their hash code is that of the String of the same characters. "
"They equal no null and no String, and asking twice gives the same answer.",
["inputs"],"all pairs of slices of arrays with arbitrary chars inside and outside the slice",
"Equality depends on offsets into the arrays and on a cached hash; tests compare two constants.",
["seq/CharArray.java"],[("comparison of slices and cached hash","seq/CharArray.java")],["equals and hashCode of the sequence"])
p("C25","Directive descriptions are validated, immutable and print as their pattern",
"A description of a directive (flags, width, precision) can be created or changed only with a width and precision that are absent (-1), taken from the arguments (Integer.MIN_VALUE) or 0..65536, anything else fails with PrintfException, and it reports exactly the flags, width and precision it was made with. "
"Changing it yields a copy that differs in the changed part only; neither the copy nor later changes of the sets given or returned affect the original. "
"Its pattern text is '%', its flags in the order - # + space 0, the width or *, '.' and the precision or *, each only if present, and the conversion character.",
["inputs","configurations"],"all 32 flag sets, every int as width and precision, all conversions, all single changes",
"Limits are single points in 2^32 values and aliasing shows only when a shared set is modified afterwards; tests do neither.",
["FormatContext.java"],[("validation and copies","FormatContext.java"),("pattern text","FormatContext.java")],["getters and pattern text of the description"])
p("C26","Wrapped numbers have the texts Java gives the numbers they wrap",
"The text (toString) of the library's integer and floating-point number objects is that of the wrapped number: Integer/Long/BigInteger.toString for integers, BigDecimal.toString for decimals, and for doubles the text Double.toString gives on Java 19 and newer, on every runtime. The converter of doubles appends that text to any kind of target after what it holds and returns the target. A number object reports the sign of its number (-0.0 as negative) and exactly NaN and the infinities as such.",
["inputs"],"all bytes, shorts, ints and longs; symbolic BigIntegers and BigDecimals; every digit sequence of a shortest decimal of a double at every layout (plain, leading zeros, exponent of one to three digits); zeros, infinities, NaN",
"The layout of a double's digits has a case for each decimal exponent and number of trailing zeros; tests print a few constants.",
["number/DoubleWrapper.java","number/BigDecimalWrapper.java","number/BigIntegerWrapper.java","util/internal/DoubleToDecimal.java"],[("layout of decimal digits","util/internal/DoubleToDecimal.java")],["toString of the number object","text in the target","sign predicates"])
p("C27","Null and out-of-range API arguments are rejected at the call",
"Passing null where the API needs an object (format string, argument list, output target, wrapped text, text to join, mapper, flag set, directive to describe) throws NullPointerException from that call, leaves a given output target as it was and the formatter usable. A builder capacity or repeat count below 1 and an expected list size or lazy text length below 0 throw IllegalArgumentException, and every size from there on is accepted.",
["inputs","configurations"],"every int as a size; null in each object position of the API; cached and uncached formatters; arbitrary content of the target",
"A size check that lets one wrong value through, or a null check made after something was written, shows for that value only; tests try a few values per call.",
["FastPrintf.java","FastPrintfImpl.java","Args.java","ArgsImpl.java","seq/Seq.java","util/Preconditions.java","FormatContext.java"],[("argument checks","util/Preconditions.java")],["exceptions thrown by the public API","content of the output target"])
p("C28","Error messages substitute each argument once and show all of them",
"The message of an exception made from a template and arguments is the template with each %s, from left to right, replaced by the text of the next argument; placeholders beyond the arguments stay, arguments beyond the placeholders follow in ' [a, b]', and nothing inside a substituted text is replaced again. A null argument shows as null, an argument whose toString fails as <class@identity-hash threw exception-class>, and creating the message never fails. Index checks accept exactly the indexes in range and report index or start and end together with the size.",
["inputs"],"all templates up to the bound of arbitrary chars, argument counts below, at and above the number of placeholders; every int as index",
"Templates whose placeholders and arguments do not match, or whose arguments look like placeholders, occur only in failures that tests do not provoke.",
["PrintfException.java","util/Utils.java","util/Preconditions.java"],[("substitution of placeholders","util/Utils.java")],["getMessage and getCause of the exceptions"])
p("C29","Text helpers give exact sizes, ASCII case and joins for every input",
"The size helper gives exactly the number of characters of the decimal text of every int and long. The character helpers treat exactly 0-9 as digits, a-z as lower and A-Z as upper case, and upper-casing a char, text or char array changes exactly a-z and reports whether an array changed. Joining an array, iterable or iterator appends the elements' texts (null as null, one whose toString fails as <class@identity-hash threw exception-class>) with the separator between them to the given builder and returns it; any other object is appended as it is and null appends nothing.",
["inputs"],"all ints and longs, all 65536 chars, arbitrary texts up to the bound, 0..4 joined elements",
"The size depends on the sign and on each power of ten; a wrong size corrupts output for one number of digits only.",
["util/Utils.java"],[("decimal size, ASCII case, joining","util/Utils.java")],["results of the public helper methods"])
p("C30","Pieces of a compiled format describe themselves and take their arguments",
"A literal piece prints its text unchanged without taking an argument, and its description is the text in double quotes with newline, carriage return, tab, backspace, form feed, backslash and double quote written as \\n \\r \\t \\b \\f \\\\ and \\\", every other character as it is. A directive piece reports the conversion and context it was made of and is described by its pattern text. A character denotes a conversion exactly if it is one of d i u o x X f F e E g G a A c s S t T n p %, i being the same as d.",
["inputs","configurations"],"all literal texts up to the bound of arbitrary chars; all conversions, flag sets, widths and precisions; every char as a conversion",
"Escaping has a case per character; tests try typical texts.",
["appender/FixedStringAppender.java","appender/DefaultAppender.java","Specifier.java"],[("description of a piece","appender/FixedStringAppender.java")],["toString and getters of the pieces"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
