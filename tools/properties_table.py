p("C01", "Splitting yields exactly the tokens the delimiters define",
  "Splitting any text by single or multiple delimiters yields exactly the maximal runs between delimiters, in order, as views into the text: n delimiters give n+1 tokens by default, delimiter runs are merged when leading, trailing or all delimiters are compressed, and the include-delimiter options extend each token by its one or all following delimiters. The iterator-style tokenizer, in each of its modes, walks the same tokens as the one-shot split. No byte outside the given text is read.",
  "for every text, every single- or multi-character delimiter set and every combination of split options and tokenizer modes",
  "the tests try a few dozen fixed strings; the interplay of empty tokens, leading/trailing/compressed delimiters and inclusion options on arbitrary texts is a quantifier over all strings",
  [("one-shot splitting and its compression/inclusion options", "strtk.hpp: split(delimiter predicate, begin, end, out, split_option)"), ("iterative tokenizer", "strtk.hpp: class tokenizer / tokenizer_iterator"), ("delimiter predicates", "strtk.hpp: single_delimiter_predicate, multiple_char_delimiter_predicate")])
p("C02", "Bounded, offset and pair splitting agree with full splitting",
  "Splitting at most n tokens yields the first n tokens of the full split under every split option, splitting by a list of field widths yields exactly those consecutive fields (cyclically and with the remainder, when asked), and splitting into a pair yields the part before and after the first delimiter. The per-token callbacks see the same tokens, each exactly once and in order. No byte outside the text is read.",
  "for every text, token limit, width list and option combination",
  "tests use a handful of strings and widths; the agreement must hold for all strings and all limits including those beyond the number of tokens",
  [("bounded splitting", "strtk.hpp: split_n"), ("fixed-width splitting", "strtk.hpp: offset_splitter, offset_predicate"), ("pair splitting", "strtk.hpp: split_pair"), ("callbacks", "strtk.hpp: for_each_token")])
p("C03", "Parsing a delimited line fills every variable or reports failure",
  "Parsing a delimited text into a list of typed variables succeeds exactly when the text has at least that many fields (consecutive delimiters merged) and each field is valid for its type, and then every variable holds its field's value, with a trailing container taking all remaining fields. A text with too few fields fails and assigns nothing. Nothing outside the text is read and nothing but the given variables is assigned.",
  "for every text, every number of variables and every mixture of field types",
  "tests parse a few well-formed lines; malformed or short lines, empty fields and arbitrary bytes are a quantifier over all inputs",
  [("multi-variable parse", "strtk.hpp: parse(begin, end, delimiters, t1..t12)"), ("trailing container", "strtk.hpp: parse(..., container)")])
p("C04", "Parsing into containers keeps every valid field, in order, with the right count",
  "Parsing a delimited text into any supported container (vector, deque, list, set, multiset, queue, stack, priority queue) stores the value of every field that is valid for the element type, in order, skipping the others, and returns the number of fields (those of the full split in the same mode; by default delimiter runs are merged). The bounded form considers only the first n fields and returns how many elements it stored.",
  "for every text, element type, container type, split option and bound n",
  "tests use valid comma separated lists; counts and contents with empty or invalid fields must hold for all texts",
  [("container parse", "strtk.hpp: parse(begin, end, delimiters, container, split_option)"), ("bounded container parse", "strtk.hpp: parse_n"), ("inserters", "strtk.hpp: *_inserter_with_valuetype, details::container_adder family")])
p("C05", "Integer text converts exactly or is rejected",
  "Converting text to any signed or unsigned integer type succeeds exactly for an optional sign (signed types; unsigned accept a plus) followed by digits whose value fits the type, leading zeros allowed, and yields that value; every other text, including values just outside the range, is rejected and leaves the destination unchanged.",
  "for every text and every integer type from 16 to 64 bits",
  "the overflow boundary depends on every digit and on length; tests probe selected values only",
  [("signed conversion", "strtk.hpp: details::string_to_signed_type_converter_impl / _itr variants"), ("unsigned conversion", "strtk.hpp: details::string_to_unsigned..."), ("per-type limits", "strtk.hpp: details::numeric<T>")])
p("C06", "Integer to text to integer is the identity",
  "Converting any integer of any supported width to text gives its canonical decimal form (minus sign for negatives, no leading zeros, no plus sign), and converting that text back gives the original value. This includes the extreme values of every type.",
  "for every value of every integer type",
  "2^64 values; tests sample a few thousand sequential ones",
  [("unsigned to text", "strtk.hpp: details::type_to_string_converter_impl(unsigned_type_tag)"), ("signed to text", "strtk.hpp: details::type_to_string_converter_impl(signed_type_tag)"), ("digit tables", "strtk.hpp: details::rev_2digit_lut, rev_3digit_lut")])
p("C07", "Real number text converts accurately or is rejected",
  "Converting decimal text (optional sign, digits, optional fraction, optional exponent of up to three digits, optional f/F/l/L suffix, or inf/infinity/nan) to float or double succeeds and gives the denoted value to within rounding (relative error below 1e-15 for double, 1.5e-7 for float), saturating to zero or infinity far outside the range. Text that is not a number is rejected and leaves the destination unchanged. Nothing outside the text is read.",
  "for every text and every decimal number within the stated digit and exponent ranges",
  "tests compare a few hundred numerals against a tolerance; each digit and each exponent exercises a different table entry and rounding path",
  [("real conversion", "strtk.hpp: details::string_to_type_converter_impl(real_type_tag)"), ("power scaling", "strtk.hpp: details::pow10"), ("special values", "strtk.hpp: details::parse_inf, parse_nan")])
p("C08", "Fast digit conversion equals the decimal value for every length",
  "For text of n decimal digits the fast unchecked conversions return exactly the decimal value, for every supported length and destination type able to hold it, with the length given at run time or at compile time. With digit checking on they accept exactly texts made of digits (an optional leading sign for the signed form), and otherwise report failure.",
  "for every digit string of every supported length (0..20) and for arbitrary bytes with checking on",
  "each length has its own unrolled routine; tests run each on a few values, so one wrong weight or index in one length can hide",
  [("per-length conversion routines", "strtk.hpp: fast::details::numeric_convert_impl<T,Iterator,N>"), ("per-length digit checks", "strtk.hpp: fast::details::all_digits_check_impl<Iterator,N>"), ("dispatch", "strtk.hpp: fast::numeric_convert, fast::signed_numeric_convert, fast::all_digits_check")])
p("C09", "Hexadecimal encoding round trips for every byte string",
  "Encoding any binary data to hexadecimal gives two upper-case digits per byte in order, and decoding it gives back the original bytes. Decoding accepts either letter case, and rejects empty or odd-length text leaving the output alone. Exactly the output size is written.",
  "for every binary string and every text offered for decoding",
  "the tests encode a few strings; the two 256-entry tables and the length handling must be right for every byte at every position",
  [("encoder table and loop", "strtk.hpp: convert_bin_to_hex"), ("decoder table and loop", "strtk.hpp: convert_hex_to_bin")])
p("C10", "Base64 encoding round trips for every byte string",
  "Encoding any binary data gives the standard base64 alphabet with padding to a multiple of four, and decoding it, with or without the padding, gives back the original bytes. Decoding arbitrary text never writes more than three quarters of its length nor touches memory outside the text.",
  "for every binary string of every length class modulo three, and every text offered for decoding",
  "tests encode a few strings; remainder handling and table entries must be right for all bytes",
  [("encoder", "strtk.hpp: convert_bin_to_base64"), ("decoder", "strtk.hpp: convert_base64_to_bin")])
p("C11", "Hexadecimal and base64 field sinks deliver the value or report invalid",
  "A field read through a hexadecimal-number sink yields the number its digits denote, with or without a 0x prefix, whenever it fits the destination, a base64-number sink yields the big-endian number its bytes denote, and a hexadecimal-string sink yields the decoded bytes. Anything else (wrong characters, empty, too long) is reported as invalid, the number sinks then leaving the destination unchanged, and no memory beyond the destination is written.",
  "for every field text and destination width",
  "tests and examples use full-width values; short, odd-length, overlong and malformed fields are a quantifier over all texts",
  [("hex number sink", "strtk.hpp: class hex_to_number_sink"), ("base64 number sink", "strtk.hpp: class base64_to_number_sink"), ("hex string sink", "strtk.hpp: class hex_to_string_sink")])

p("C12", "What the serializer writes, the reader gives back",
  "Any sequence of plain values, strings, short strings, pairs, arrays, containers (vector, deque, list, set, multiset, nested or not) and user structures written into a buffer reads back equal and in order, from exactly the bytes written and with positions that agree; each write is accepted exactly when its encoding fits, and never touches bytes past it. Position control (seek, rewind, mark, reset, clear) moves within the buffer or is refused. A number written as a padded text field occupies exactly the stated width, padded on the stated side.",
  "for every value, content, length and buffer capacity",
  "tests round-trip a few structures in ample buffers; exact-fit buffers, empty containers and arbitrary contents are a quantifier over all values",
  [("binary writer", "strtk.hpp: binary::writer"), ("binary reader", "strtk.hpp: binary::reader"), ("short strings", "strtk.hpp: binary::details::short_string_impl")])
p("C13", "Reading truncated or hostile bytes fails cleanly",
  "Reading any type from arbitrary bytes succeeds exactly when the encoding (including every length field) lies completely inside the buffer, then yielding the value those bytes encode; otherwise it reports failure. No byte outside the buffer is ever read or written, by reader or writer, and the position never leaves the buffer.",
  "for every byte content and every buffer length",
  "tests never read malformed data; length fields are attacker-controlled 32-bit values",
  [("capacity checks", "strtk.hpp: binary::reader::buffer_capacity_ok and its callers"), ("container reads", "strtk.hpp: strtk_def_rdr_opr, reader::operator()(vector/set/multiset)"), ("writer checks", "strtk.hpp: binary::writer::buffer_capacity_ok, write_pod")])
p("C14", "Byte order conversions reverse bytes and round trip",
  "Byte order conversion of a 16, 32 or 64-bit value reverses its bytes and is its own inverse. Values written in big-endian (little-endian) order put the most (least) significant byte first and read back unchanged, and a failing read or write changes nothing outside the buffer.",
  "for every value of every supported width and signedness",
  "2^64 values; tests do not exercise it at all",
  [("conversion", "strtk.hpp: binary::details::convert"), ("ordered writes and reads", "strtk.hpp: writer::native_to_be/le, reader::be_to_native/le_to_native")])
p("C15", "Wildcard matching decides the pattern's language",
  "A text matches a wildcard pattern exactly when it can be written as the pattern with every '*' replaced by any text, every '?' replaced by at most one character, and every other character standing for itself. The iterator form does so for any choice of the two wildcard characters. No byte outside pattern and text is read.",
  "for every pattern and every text",
  "tests do not exercise it; the interplay of several wildcards needs every pattern/text combination",
  [("matcher", "strtk.hpp: details::match_impl, match")])
p("C16", "Case-insensitive comparison, prefix/suffix tests and searches are exact",
  "Case-insensitive equality holds exactly when two texts have equal length and their characters are equal up to ASCII letter case; prefix and suffix tests, in both case modes, agree with comparing the corresponding part. Searching returns the first occurrence (or none), and the find-all forms return every non-overlapping occurrence from left to right with the right count.",
  "for every pair of texts",
  "tests try a few words; all alignments, overlaps, empty and too long patterns are a quantifier over pairs of strings",
  [("case-insensitive equality", "strtk.hpp: imatch"), ("prefix/suffix tests", "strtk.hpp: begins_with, ibegins_with, ends_with, iends_with"), ("searches", "strtk.hpp: find_all, ifind, ifind_all, index_of")])
p("C17", "Pattern replacement replaces every occurrence and nothing else",
  "Replacing (or removing) a pattern in a text yields the text with every left-to-right non-overlapping occurrence of the pattern replaced and all other characters kept, for replacements shorter, equal or longer than the pattern, in the string and the iterator forms, and reports the resulting size. An empty pattern changes nothing. Replacing a character changes exactly the characters equal to it.",
  "for every text, pattern and replacement",
  "tests use a few texts; overlaps, adjacent occurrences, and length changes in both directions need all combinations",
  [("string form", "strtk.hpp: replace_pattern(s,p,r,n), remove_pattern"), ("iterator form", "strtk.hpp: replace_pattern(iterators)"), ("characters", "strtk.hpp: replace")])
p("C18", "In-place character removal removes exactly what was asked",
  "Removing characters by value, set or predicate keeps all other characters in order; removing consecutive characters shrinks each run to its first character; removing leading, trailing or both removes exactly the maximal run at that end, even if that is the whole text; removing duplicates keeps the first of each character; removing empty strings keeps the others. Sizes and counts reported agree.",
  "for every text and every character set",
  "tests use a few fixed strings; runs at the ends and interleavings of kept and removed characters need all texts",
  [("removal", "strtk.hpp: remove_inplace"), ("runs", "strtk.hpp: remove_consecutives_inplace"), ("ends", "strtk.hpp: remove_leading, remove_trailing, remove_leading_trailing"), ("duplicates", "strtk.hpp: remove_duplicates"), ("empty strings", "strtk.hpp: remove_empty_strings")])
p("C19", "A token grid has exactly the rows and tokens of its text",
  "Loading delimited text as a grid yields one row per non-empty line, in order, and per row exactly the fields of that line under the chosen column delimiters and split mode; with double-quote support delimiters inside quotes do not split, quoting never carries over to another row, and trimming removes a surrounding pair of quotes only. Row, column and size queries, cell access and row parsing (whole, by index, by range, into containers) all agree with those tokens; positions outside the grid give null tokens or failure.",
  "for every text, delimiter choice and split/quote option",
  "tests load well-formed tables; ragged rows, empty fields, stray quotes and delimiter runs are a quantifier over texts",
  [("loading", "strtk.hpp: token_grid::load, row_processor"), ("quotes", "strtk.hpp: token_grid::double_quotes_predicate"), ("rows", "strtk.hpp: token_grid::row_type, parse, parse_with_index, parse_n, parse_checked"), ("cells", "strtk.hpp: token_grid::token, get, store::operator()")])
p("C20", "Token grid edits, extraction and aggregation act on exactly the selected cells",
  "Removing rows by index, predicate or column count, or tokens by predicate, removes exactly those and keeps every other token in order with consistent row, column and size information, also after several edits. Extracting columns, summing rows or columns, joining the non-empty tokens (with the delimiter exactly between them) and column widths cover exactly the selected rows and columns, each once and in order, and a partition starts exactly at each transition row. Invalid row ranges are refused without effect.",
  "for every grid shape and content, every selection and every sequence of edits",
  "tests apply single edits to fixed tables; index bookkeeping across arbitrary shapes and edit sequences is a quantifier over histories",
  [("removal", "strtk.hpp: token_grid::remove_row, remove_row_if, remove_token_if, enforce_*"), ("extraction", "strtk.hpp: token_grid::extract_column, extract_column_checked"), ("aggregation", "strtk.hpp: token_grid::accumulate_row, accumulate_column, join_row, join_column, column_width, sequential_partition")])
p("C21", "Key-value text delivers each known key's value exactly once",
  "Parsing key-value text calls, for each pair in order, the target registered under that key with the text of its value, so that afterwards every registered target holds the last value given for its key and others are unchanged. Unknown keys, and values that do not convert, are skipped in lenient mode and reported as failure in strict mode, independent of earlier parses. Only the chosen delimiters separate pairs and keys from values.",
  "for every text, key set and mode",
  "tests parse well-formed messages; missing values, repeated keys, empty pairs, unknown keys and reuse of a parser are a quantifier over texts and histories",
  [("parser", "strtk.hpp: keyvalue::parser::operator()"), ("key tables", "strtk.hpp: keyvalue::uintkey_map, stringkey_map, options"), ("targets", "strtk.hpp: util::value")])
p("C22", "The prefix trie finds exactly the keys inserted with their last values",
  "After any sequence of insertions, finding a key yields the value last inserted for exactly that key and nothing for keys never inserted, even if they are prefixes or extensions of inserted ones. Prefix finding yields exactly whether some inserted key starts with the text asked for.",
  "for every set of keys, every order of insertion and every lookup",
  "tests insert a handful of words; shared prefixes, keys that are prefixes of one another and reinsertion need all key sets",
  [("trie", "strtk.hpp: prefix_trie::insert, find, find_prefix"), ("helpers", "strtk.hpp: trie insertion and lookup of strings")])
p("C23", "The bloom filter never forgets an inserted key",
  "Every key inserted into a bloom filter, in whichever form it was given, is reported as contained from then on: after further insertions, after copying and assigning the filter, and after compressing it. The union of two filters contains the keys of both; the intersection the keys they share. No operation accesses memory outside its table.",
  "for every key content, table size, hash count and sequence of operations",
  "tests insert generated words in default-size tables; false negatives depend on bit positions and table sizes, and need every content and size",
  [("insertion and lookup", "strtk.hpp: bloom_filter::insert, contains, compute_indices, hash_ap"), ("combination", "strtk.hpp: bloom_filter operators &=, |=, ^="), ("compression", "strtk.hpp: compressible_bloom_filter")])
p("C24", "Combination and permutation utilities enumerate each selection exactly once",
  "Stepping through combinations or permutations visits every distinct selection of the given size exactly once in lexicographic order and then reports the end with the sequence back in order. The callback forms deliver each combination, pass on early termination, and the index forms give the n-th in that order. Binomial coefficients are exact.",
  "for every sequence (equal elements included), every size and every index",
  "tests enumerate a few sizes; duplicates, k of 0 or n and the last index need all sequences and positions",
  [("next", "strtk.hpp: next_combination, combination_iterator"), ("callbacks", "strtk.hpp: for_each_combination, for_each_combination_conditional"), ("n-th", "strtk.hpp: nth_combination_sequence, nth_permutation_sequence, n_choose_k")])
p("C25", "Joined, bracketed, constructed and replicated text is the exact concatenation",
  "Joining a sequence gives its elements' texts in order with the delimiter between neighbours only, also for conditional joins; bracketing adds the two brackets around each element; construction from several values and the string builder give the values' texts in order with delimiters between; replication gives exactly n copies; insertion at intervals puts the text after every n-th element only. Splitting a join gives the elements back.",
  "for every sequence of texts, every delimiter and count",
  "tests join a few fixed lists; empty sequences and elements, rejected first or last elements and every container form are a quantifier over sequences",
  [("join", "strtk.hpp: join, join_if"), ("construct", "strtk.hpp: construct, build_string, bracketize"), ("copies", "strtk.hpp: replicate, replicate_inplace, interval_inserter")])
p("C26", "Bit utilities agree with their definition on every bit",
  "Reading, setting, clearing and counting bits of a byte range, interleaving and elementwise combination of ranges, and Hamming distances act on exactly the bits their definition names, for every byte value and bit index, and write exactly the output range. Population counts of every integer width equal the number of one bits.",
  "for every byte content, length, bit index and value",
  "the 256-entry tables and index arithmetic must be right for all bytes and positions; tests sample a few or none",
  [("bits", "strtk.hpp: bit_state, set_bit_high, set_bit_low, high_bit_count"), ("interleave", "strtk.hpp: twoway_bitwise_interleave, threeway_bitwise_interleave"), ("distances", "strtk.hpp: hamming_distance, hamming_distance_elementwise")])
p("C27", "Text transforms map every character by their definition",
  "Case conversion, printable conversion and translation tables map every byte of the text by their definition and nothing else; the canonical rotation is the least rotation of the input; the first unrepeated character, counts of consecutive duplicates, smallest and largest values, ascending fills (iota) and cut slices agree with their definition. No byte outside the text or the tables is accessed, whatever the sign of the characters.",
  "for every text, table content and position",
  "tests use a few ASCII texts; bytes above 127, rotations past the end and duplicate table entries are only reached by quantifying over all bytes",
  [("letters", "strtk.hpp: convert_to_uppercase, convert_to_lowercase, convert_to_printable_chars"), ("tables", "strtk.hpp: translation_table"), ("single characters and rotation", "strtk.hpp: first_non_repeated_char, lexicographically_canonicalize, count_consecutive_duplicates, iota, cut, min_max_of_range")])
p("C28", "Attributes, values and actions hold what was last assigned",
  "An attribute reports its current and previous value and whether it was initialised and changed, a type-erased value writes parsed or assigned contents to exactly the variable it was bound to and converts back to its text, and copies and assignments of values and semantic actions stay valid after the original is gone. A scoped restore gives a variable its old value back.",
  "for every value and text and every sequence of copies and assignments within the bound",
  "lifetime errors of copies show only in particular copy/assign/destroy orders, which no test tries",
  [("attribute", "strtk.hpp: util::attribute"), ("type-erased value", "strtk.hpp: util::value, type_holder"), ("semantic action", "strtk.hpp: util::semantic_action_impl, scoped_restore")])
p("C29", "Memory and container helpers touch exactly what they are told to",
  "Fixed-size comparison is equality of exactly that many bytes, array assignment and clearing write exactly the given prefix (with the padding asked for) or refuse and change nothing, and strings made of arrays hold exactly the array's bytes. Key and value lists hold the map's keys and values, deleting helpers destroy each selected object exactly once and remove exactly those, and pushing, clearing, reversing and filling act on every element in order.",
  "for every byte content, length, container content and selection",
  "unrolled comparison and out-of-range sizes depend on every byte and length; double or missed deletions depend on the subset chosen",
  [("memory", "strtk.hpp: memcmp_n, set_array, clear_array, make_string"), ("containers", "strtk.hpp: util::delete_all, delete_if, make_key_list, make_value_list"), ("push and clear", "strtk.hpp: util::push_back, clear, reverse, fill")])
p("C30", "Parse adaptors accept exactly the tokens they describe",
  "In a parsed line, the adaptors for expected text (with or without case), wildcard patterns, value ranges, trimming, letter case, fixed arrays, truncated integers, decimals and lists accept a token exactly if it is as described and then store exactly the described value; otherwise parsing fails and the target is unchanged. Neighbouring fields get their own values.",
  "for every token content and every bound, pattern or set",
  "tests parse a few accepted tokens; tokens at and beyond the limits, of every length, are a quantifier over all texts",
  [("expect, like, ranges", "strtk.hpp: expect, iexpect, like, inrange"), ("trimming and letters", "strtk.hpp: trim, trim_leading, trim_trailing, as_lcase, as_ucase"), ("numbers and lists", "strtk.hpp: truncated_int, decimal_sink, sink_type, fill_array")])
p("C31", "Text helpers align, classify and edit exactly as asked",
  "Aligning pads a text with the given character to exactly the given width, on the asked side, and never shortens it; character classes contain exactly their characters; swapping, removing and inserting a character changes exactly the given positions. An index outside the text changes nothing, and no byte outside the text is accessed.",
  "for every text, width, character and index",
  "tests use no out of range index and few widths; each position and width is a different copy",
  [("alignment", "strtk.hpp: text::left_align, right_align, center"), ("classes", "strtk.hpp: text::is_letter, is_digit, is_hex_digit"), ("editing", "strtk.hpp: text::swap, remove, insert and their inplace forms")])
p("C32", "Runs of a character class are found and split exactly",
  "Finding n consecutive characters of a class (or satisfying a predicate) yields the first n of the first run that is long enough, or with at-least mode that whole run; matching tests the start of the range only; splitting yields all of them in order, from left to right, without overlap, and the bounded form at most the number asked for. All forms (pointers, unsigned pointers, strings) agree and read nothing outside the text.",
  "for every text, class, mode, run length and limit",
  "which run is found depends on every character of the text; no test covers runs at the end of the text or limits",
  [("finding", "strtk.hpp: find_n_consecutive, details::find_exactly_n_consecutive_values, find_atleast_n_consecutive_values"), ("matching", "strtk.hpp: match_n_consecutive"), ("splitting", "strtk.hpp: split_on_consecutive, split_on_consecutive_n")])
p("C33", "Line readers deliver every line once and exactly the lines asked for",
  "Reading lines from a stream or file delivers every line once, in order and without its newline, up to the limit or the first refusal, and leaves the rest in the stream. Reading lines as values, loading a container from a text file and writing one to it hold exactly the values of the lines, in order; a line that is no value and a missing file are reported. Parsing a line consumes one line and yields what parsing its text yields.",
  "for every text, line limit, stopping line and list of values",
  "tests read one file of regular lines; the last line without newline, empty lines, zero limits and refusals are a quantifier over texts",
  [("line iteration", "strtk.hpp: for_each_line, for_each_line_n, for_each_line_conditional, for_each_line_n_conditional"), ("values and containers", "strtk.hpp: read_line_as_value, load_from_text_file, write_to_text_file"), ("parsing lines", "strtk.hpp: parse_line, parse_line_n")])
p("C34", "Binary and whole-file input and output round-trip and report failure",
  "What a file or stream helper, binary writer or bloom filter writes is exactly the data given, and reading it back yields the same values; reads at an offset return exactly the bytes there, and copying and concatenating files preserves every byte. A missing, too short or truncated file or stream is reported as failure and never touches memory outside the caller's buffer. A token grid loaded from a file is that of its text.",
  "for every file content, size, offset and element count",
  "tests do not cut files short; each truncation point and offset is a different input",
  [("files", "strtk.hpp: fileio::load_file, write_file, copy_file, concatenate, read_at_offset"), ("values", "strtk.hpp: read_pod, write_pod, fileio::read_pod, fileio::write_pod"), ("binary streams, bloom filter, grid", "strtk.hpp: binary::reader, binary::writer, bloom::filter, token_grid::load")])
p("C35", "Filters, size conditions and copy helpers pass on exactly what they describe",
  "The token filters pass on, unchanged, exactly the tokens that match the wildcard pattern or equal one of the words (with or without case) or, if so asked, exactly the others; size conditions hold by the element count of any container, text or range. The copy helpers deliver exactly the elements described, in order, and report where they stopped. Range adapters present exactly the underlying elements.",
  "for every token, word list, direction, container size and element sequence",
  "tests use no filter with the opposite direction, prefixes of words or empty tokens, which decide between the variants",
  [("filters", "strtk.hpp: filter_on_match, filter_on_wildcard_match, filter_non_empty_range"), ("sizes", "strtk.hpp: size_equal_to, size_less_than, size_greater_than, size_is_even, size_is_odd"), ("copying and ranges", "strtk.hpp: copy_n, copy_if, copy_while, copy_until, extract_unique, skip_while_matching, range::adapter")])
p("C36", "Column selection stores exactly the selected columns",
  "Parsing columns succeeds exactly if every selected column is present and converts to the type of its variable, and then each variable or sequence element holds its own column; if columns are missing nothing is assigned. A column selector fed with the fields of a row gives each variable its column if that is there and converts and leaves the others alone, row after row once reset, however it was copied. A sequence too short for the column list is refused.",
  "for every increasing list of 1 to 12 columns, every field content, missing and surplus fields",
  "twelve arities with their own code for variables and sequences each; tests use one arity and one list",
  [("parse_columns", "strtk.hpp: parse_columns, details::column_selector_iterator_impl"), ("column selector", "strtk.hpp: column_selector, details::column_selector_base, column_list"), ("sequences", "strtk.hpp: details::compose_st_selector_impl")])
p("C37", "String conditions and extended strings mean what they say",
  "A string condition (equal, not equal, wildcard, begins with, ends with, contains, does not contain) holds for a text exactly if it is true of it, also for copies made before the original is gone. The operations of an extended string (appending, joining, removing and replacing patterns, repeating, letter case, stripping, splitting, parsing, conversion) give the result their definition gives for the plain text and leave other operands alone.",
  "for every text and every condition string within the bounds",
  "tests contain none of these conditions on texts of other lengths and no copies; repetition and removal depend on every byte",
  [("conditions", "strtk.hpp: string_condition"), ("extended string", "strtk.hpp: ext_string and its operators")])
p("C38", "Output adaptors, printing and timers deliver every item exactly once",
  "The inserting adaptors (push, set insert, count, function call, convert into an array) receive every item exactly once, in order, however they are copied, and counters hold the number of items. Printing a range or a token iterator writes exactly its characters, and removing duplicates (also in place) keeps the first occurrence of every character in order. A timer reports exactly the time between start and stop and none while it runs.",
  "for every text, list of items and pair of clock readings",
  "tests use few of the adaptors and only as temporaries; clock readings that cross a second are rare",
  [("adaptors", "strtk.hpp: push_inserter, inserter_with_valuetype, counting_back_inserter, functional_inserter, range_to_ptr_type"), ("printing", "strtk.hpp: operator<< for ranges and tokenizer iterators, remove_duplicates"), ("timer", "strtk.hpp: util::timer, util::scoped_timer")])
p("C39", "Library objects release all memory they acquired, and only once",
  "Whatever operations are performed on them, delimiter predicates over sets of any length, token grids (loaded, reloaded, failed and cleared in any order), prefix tries and bloom filters (copied, assigned, combined, compressed, written, read back or refused) own no memory after their destruction, and never release memory twice or memory of the caller. Functions that work with a temporary table or buffer leave nothing behind; a failed array read hands over nothing, and clearing a container gives its storage back.",
  "for every sequence of operations, set size, truncation point and word list within the bounds",
  "no test measures what is left over; a leak or a double release needs a particular order of loads, failures, copies and clears",
  [("delimiter sets", "strtk.hpp: multiple_delimiter_predicate"), ("token grid", "strtk.hpp: token_grid::load, token_grid::clear, token_grid::~token_grid"), ("tries and filters", "strtk.hpp: trie::prefix, bloom::filter, bloom::compressible_filter"), ("temporaries", "strtk.hpp: n_choose_k, bloom::filter::read_from_file, binary::reader, util::clear")])
p("C40", "Random selections are permutations, subsets and values of what was given",
  "A random permutation delivers every element of the input exactly once, a random combination or selection delivers exactly the asked number of different elements of it (asking for more is refused, or delivers all), and random values of any type lie within the bounds given. The same seed gives the same result. Random data fills exactly the given buffer.",
  "for every sequence of draws of a generator with values in [0,1), every input and size within the bounds",
  "tests do not touch the random helpers; the result must be right whatever the generator returns, including the extreme draws that occur once in millions of runs",
  [("permutations and combinations", "strtk.hpp: random_permutation, random_combination"), ("selection", "strtk.hpp: select_k_randomly, select_1_randomly"), ("data and values", "strtk.hpp: generate_random_data, generate_random_values, uniform_real_rng")])
p("C41", "Splitting by a regular expression yields every match, once and in order",
  "Splitting a text by a regular expression delivers, as views into the text, every match in order (or, as asked, the chosen one of its first nine sub-expressions) and returns their number. The bounded form delivers the first n of them. All forms (compiled or textual expression, string or iterator pair) agree.",
  "for every text, bound and match mode",
  "tests do not use regular expressions at all; empty texts, bounds beyond the number of matches and unmatched sub-expressions are a quantifier over texts",
  [("splitting", "strtk.hpp: split_regex"), ("bounded splitting", "strtk.hpp: split_regex_n"), ("choice of the sub-expression", "strtk.hpp: regex_match_mode")])
p("C42", "Build options for speed change no result of number parsing",
  "With the lookup-table and superscalar build options enabled, exactly the well-formed real numbers are accepted, whatever bytes the text contains, and the value delivered is the one written, within the rounding error of the type; a rejected text leaves the destination untouched. No byte outside the text or the tables is read.",
  "for every text within the bounds, with the build options enabled",
  "the tests are never built with these options, so no input at all is tried on the code they select",
  [("digit lookup", "strtk.hpp: details::digit_table, strtk_use_lut"), ("unrolled digit loops", "strtk.hpp: string_to_type_converter_impl(real), strtk_enable_superscalar"), ("exponent", "strtk.hpp: string_to_type_converter_impl_ref")])
