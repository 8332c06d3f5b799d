#!/usr/bin/env python3
"""Single source for /verif/properties.jsonl and /verif/MANIFEST.json.

A property is claimed when /verif/props/<id>.cpp exists.
"""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TECH = 'property-based testing (tape-generated cases, shrinking, sanitizers): '
PROPS = []


def P(id, title, statement, over, text, why, files, mech, tech, note):
    PROPS.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {'files': files,
                    'mechanism': [{'name': n, 'where': w} for n, w in mech]},
        '_tech': tech, '_note': note})


U = 'libs/utils/'
K = 'libs/kana/'
J = 'libs/kanji/'
Q = 'libs/quiz/'
S = 'libs/stats/'

P('P01', 'UTF-8 conversion is exact and total',
  'Converting text between UTF-8 and wide characters is the identity in both directions for every well-formed text, '
  'and for arbitrary bytes it never fails: each malformed piece becomes exactly one replacement character, every well-formed '
  'character around it is preserved in order, and nothing invalid is ever produced. Invalid code points are written as the replacement character.',
  ['inputs'], 'all byte strings and all code point sequences, including overlong, truncated, surrogate and out-of-range forms',
  'Tests convert a few dozen literals; the statement is about every byte string, where boundary and resynchronisation rules differ for each lead byte.',
  [U + 'src/Utf8.cpp', U + 'include/kt_utils/Utf8.h'],
  [('conversion from bytes', U + 'src/Utf8.cpp convertFromUtf8 / fromUtf8'), ('conversion to bytes', U + 'src/Utf8.cpp toUtf8')],
  'differential against a separate RFC 3629 codec + round trip',
  'All 1- and 2-byte strings and every code point are enumerated; longer strings are sampled. Trusts the reference codec in harness/text.h.')

P('P02', 'UTF-8 validation accepts exactly the well-formed characters',
  'Validating text reports the first character as well-formed exactly when it is a legal UTF-8 sequence, and otherwise gives the reason '
  '(stray continuation byte, truncated, overlong, invalid code point, impossible first byte). When a single character is required, '
  'anything following the first multi-byte character is rejected.',
  ['inputs'], 'all byte strings, in both the single-character and the prefix mode',
  'Tests use a handful of malformed literals; boundaries exist at every lead byte and for every continuation value.',
  [U + 'src/Utf8.cpp', U + 'include/kt_utils/Utf8.h'],
  [('validation', U + 'src/Utf8.cpp validateMBUtf8 / validateUtf8')],
  'differential against a separate RFC 3629 decoder',
  'All 1-2 byte strings and all code points are enumerated, lead/continuation boundaries are dense; other strings sampled.')

P('P03', 'Walking a text visits every user-visible character once',
  'Stepping through a text character by character visits every multi-byte character exactly once and in order, keeping variation selectors with '
  'their Kanji, composing a kana followed by a combining voiced mark into the single equivalent kana, and skipping or returning '
  'single-byte characters as asked. Counts, the first character, and prefix/peek queries agree with that walk, and malformed bytes are '
  'reported without losing the characters around them.',
  ['inputs'], 'all byte strings mixing ASCII, kana, Kanji, combining marks, variation selectors and malformed sequences',
  'The number of interleavings of marks, selectors and malformed bytes is unbounded; tests sample a few.',
  [K + 'src/Utf8Char.cpp', K + 'include/kt_kana/Utf8Char.h'],
  [('iteration', K + 'src/Utf8Char.cpp Utf8Char::next / doPeek'), ('sizes', K + 'src/Utf8Char.cpp Utf8Char::size')],
  'reference model of the walk compared step by step',
  'Sampled; trusts the reference walk in props/P03.cpp.')

P('P04', 'Every code point is classified by its Unicode block',
  'Each code point belongs to exactly the character class (Hiragana, Katakana, common or rare Kanji, punctuation, symbol, wide letter, '
  'non-spacing) given by its Unicode block, and the kana, Kanji and \'recognized\' predicates are the matching unions. Predicates on strings agree with the '
  'predicate on their characters, for the single-character and the whole-string form.',
  ['inputs'], 'all Unicode code points, and all strings built from them',
  'Tests check some members of each block; block boundaries and predicates over mixed strings are not covered.',
  [U + 'src/UnicodeBlock.cpp', U + 'include/kt_utils/UnicodeBlock.h', U + 'include/kt_utils/BlockRange.h'],
  [('block tables', U + 'include/kt_utils/UnicodeBlock.h'), ('predicates', U + 'src/UnicodeBlock.cpp')],
  'exhaustive enumeration of code points against block ranges from the Unicode standard + sampled strings',
  'Every code point is enumerated for the single-character predicates; strings are sampled.')

P('P05', 'Kana survive conversion to Rōmaji and back',
  'Without conversion flags, converting any text in one kana script to Rōmaji and back yields the same kana; Hiragana and Katakana convert into each other '
  'without loss, and converting through Rōmaji gives the same result as converting directly. Rōmaji output consists of Latin letters only for pure kana input.',
  ['inputs'], 'all sequences of kana including small tsu, the syllabic n before vowels, the long-vowel mark and wide punctuation',
  'Ambiguities arise only from the neighbourhood of two or three kana (n + vowel, doubled consonants); tests cover chosen words.',
  [K + 'src/Converter.cpp', K + 'src/Kana.cpp', K + 'include/kt_kana/Kana.h'],
  [('conversion', K + 'src/Converter.cpp Converter::convert'), ('kana tables', K + 'src/Kana.cpp')],
  'round trip and path independence over generated kana sequences; all pairs and triples of kana',
  'Kana pairs are enumerated, longer sequences sampled.')

P('P06', 'Equivalent Rōmaji spellings give the same kana',
  'The kana produced from Rōmaji does not depend on letter case nor on which accepted spelling of a syllable (Hepburn, Kunrei, Nihon or keyboard variant) '
  'is used; doubled consonants give a small tsu and a syllable-final n gives the syllabic n. Conversion to Hiragana and '
  'to Katakana from the same Rōmaji differ only in script.',
  ['inputs'], 'all sequences of accepted Rōmaji spellings in any letter case',
  'Tests try each table entry alone in lower case; combinations of case, variant and neighbour are not reached.',
  [K + 'src/Converter.cpp', K + 'src/Kana.cpp'],
  [('Rōmaji parsing', K + 'src/Converter.cpp toKana / processRomaji'), ('variants', K + 'src/Kana.cpp Kana::RomajiVariants')],
  'metamorphic case and variant substitution over generated syllable sequences, with an independent syllable table',
  'Sampled sequences; each table entry in each case form is enumerated.')

P('P07', 'Conversion flags change only what they document',
  'Hepburn and Kunrei flags give the spellings of the published Hepburn and Kunrei-shiki systems, the no-prolong flag writes long vowels of Rōmaji input as double vowels in '
  'Hiragana instead of using the long vowel mark, and the remove-spaces flag only removes spaces. Text not touched by a documented rule comes out as it would without the flag.',
  ['inputs', 'configurations'], 'all kana or Rōmaji texts under every combination of flags and source/target type',
  'Eight flag sets times six directions times unbounded text; tests fix the flag and a few words.',
  [K + 'src/Converter.cpp', K + 'src/Kana.cpp', K + 'include/kt_kana/KanaEnums.h'],
  [('flags', K + 'src/Converter.cpp'), ('spelling tables', K + 'include/kt_kana/Kana.h getRomaji')],
  'differential against independent published spelling tables; flag on/off metamorphic relations',
  'Sampled, with every kana enumerated per flag set.')

P('P08', 'Conversion leaves all other text untouched',
  'Converting mixed text changes only the characters of the source script (and mapped delimiters): Kanji, symbols, unknown words, emoji and all other text are '
  'kept byte for byte and in order, and converting already converted text to the same script changes nothing more. '
  'A conversion never depends on text separated from it by an unrelated character.',
  ['inputs'], 'all well-formed texts mixing scripts, and arbitrary bytes',
  'Locality is a statement about all contexts; tests check isolated strings.',
  [K + 'src/Converter.cpp', K + 'src/KanaConvert.cpp'],
  [('conversion loops', K + 'src/Converter.cpp')],
  'metamorphic concatenation/locality and idempotence over generated mixed text',
  'Sampled.')

P('P09', 'The kana conversion program converts exactly what it is given',
  'The kana conversion program prints, for command line strings, piped input or interactive lines, exactly the conversion of each line under the chosen options, one line per input line, '
  'with options accepted in any order and before any string; invalid option combinations are reported as errors and never produce converted output. Interactive commands change only the option they name.',
  ['inputs', 'histories', 'configurations'], 'all argument lists, piped texts and interactive sessions',
  'Options combine freely and interactive sessions are histories; tests try options singly.',
  [K + 'src/KanaConvert.cpp', K + 'include/kt_kana/KanaConvert.h'],
  [('argument handling', K + 'src/KanaConvert.cpp processArgs/processFlag'), ('interactive loop', K + 'src/KanaConvert.cpp processOneLine/flagMenu')],
  'model-based: generated argument lists and sessions against a model using the library conversion as reference',
  'Sampled; the conversion itself is decided by P05-P08.')

P('P10', 'Tables and padded text line up by display width',
  'The display width of a text counts two columns for wide characters, one for others and none for combining marks, and padding a text to a width gives '
  'that many columns. Printed tables contain every cell once, unchanged, in order, with every line equally wide, and the Markdown form has the same number of cells in each row.',
  ['inputs'], 'all texts and all table shapes including short rows, empty cells and section rows',
  'Tests print a few fixed tables; alignment depends on every mixture of widths and row lengths.',
  [K + 'src/DisplaySize.cpp', K + 'src/Table.cpp', K + 'include/kt_kana/DisplaySize.h'],
  [('width', K + 'src/DisplaySize.cpp displaySize / wideSetw'), ('tables', K + 'src/Table.cpp Table::print / printMarkdown')],
  'reference width model and parse-back of printed tables',
  'Sampled.')

P('P11', 'Prompts only ever return an offered answer',
  'A prompt returns only one of the offered choices, the default (when just Enter is pressed) or the quit option confirmed as configured, consuming the lines it rejected and nothing more. The text shown lists every '
  'offered choice exactly once, compressing consecutive runs into ranges, and marks the default; choice sets that cannot work are rejected.',
  ['inputs', 'histories'], 'all choice sets, defaults, quit settings and sequences of typed lines',
  'Range compression and rejection loops depend on the set and the typed history; tests sample a few of both.',
  [K + 'src/Choice.cpp', K + 'include/kt_kana/Choice.h'],
  [('prompt', K + 'src/Choice.cpp Choice::get / add')],
  'model of prompt text and of the answer for generated sets and typed lines',
  'Sampled (in-memory streams, not a terminal).')

P('P12', 'Delimited data files are read faithfully or rejected',
  'Reading a delimited file yields every row in order with every field exactly as written, for any column order and delimiter, with empty fields readable as defaults only where allowed. '
  'A file with a wrong, duplicate or missing header column, too few or too many fields, or a malformed number, boolean or symbol is rejected with an error naming the file and row.',
  ['inputs'], 'all file contents, column sets and access orders',
  'File contents are unbounded; tests try one row per kind of error.',
  [U + 'src/ColumnFile.cpp', U + 'include/kt_utils/ColumnFile.h'],
  [('row reading', U + 'src/ColumnFile.cpp nextRow / verifyHeaderColumns'), ('typed access', U + 'src/ColumnFile.cpp getU8..getWChar')],
  'generated files written from a model and read back, with mutations that must be rejected',
  'Sampled.')

P('P13', 'List files keep every entry once and in order',
  'A list file read one per line or several per line yields exactly its entries in file order, with indexes counting from one; lookups agree with the list. '
  'Malformed entries and duplicates, within a file or across files that must be distinct, are rejected.',
  ['inputs', 'histories'], 'all file contents and all sequences of files loaded into the same uniqueness groups',
  'Uniqueness depends on the history of loaded files; tests use a couple of fixed files.',
  [J + 'src/ListFile.cpp', J + 'include/kt_kanji/ListFile.h'],
  [('loading', J + 'src/ListFile.cpp ListFile / addEntry'), ('uniqueness', J + 'src/ListFile.cpp uniqueNames / otherUniqueNames')],
  'model-based over generated file sequences',
  'Sampled.')

P('P14', 'Enum containers and bit masks behave like their models',
  'Enumerated lists and maps contain exactly the declared values once and in order; iterators obey random-access arithmetic, and any access, move or insert outside the valid range is reported as an error rather than '
  'reading another element. Conversions between names and values are inverse, bit mask operators follow set algebra, and argument views never go out of bounds.',
  ['inputs', 'histories'], 'all values and indexes of any integer type and all sequences of iterator or map operations',
  'Tests use in-range indexes and one past the end; narrowing and wrap-around need other values.',
  [U + 'include/kt_utils/EnumContainer.h', U + 'include/kt_utils/EnumList.h', U + 'include/kt_utils/EnumMap.h', U + 'include/kt_utils/Bitmask.h', U + 'src/Args.cpp'],
  [('bounds', U + 'include/kt_utils/EnumContainer.h checkIndex'), ('iterators', U + 'include/kt_utils/EnumContainer.h ConstIterator')],
  'stateful model-based testing against plain vectors and sets',
  'Sampled for instantiated enums of several sizes.')

P('P15', 'Text forms of identifiers and numbers convert back exactly',
  'Morohashi ids, stroke counts, Unicode names, hexadecimal and decimal texts print in a form that reads back as the same value, compare consistently with their numeric meaning, and are rejected '
  'when malformed or out of range instead of being truncated. Symbols give equal ids exactly to equal names, up to their documented capacity. Case changes and trimming helpers affect only what they name.',
  ['inputs'], 'all strings and all values of each kind',
  'Numeric parsing has boundaries (size, prefix, trailing text) that a few literals do not reach.',
  [J + 'src/MorohashiId.cpp', J + 'src/Strokes.cpp', U + 'src/String.cpp', U + 'src/Symbol.cpp', U + 'include/kt_utils/String.h', U + 'include/kt_utils/Symbol.h'],
  [('parsing', J + 'src/MorohashiId.cpp, ' + J + 'src/Strokes.cpp'), ('symbols', U + 'include/kt_utils/Symbol.h')],
  'round trip and independent reference parsers over generated strings',
  'Sampled, small domains enumerated.')

P('P16', 'Kanji indexes agree with the loaded data files',
  'After loading a data directory, the Kanji reported for each type, grade, level, Kyū, radical, name, frequency, Morohashi or Nelson id are exactly those the data files define, '
  'each Kanji has exactly one entry with the type implied by the files, and every lookup agrees with every other view of the same Kanji. Lookups of unknown keys find nothing. The summary printed when loading with -info or -debug reports the same counts.',
  ['inputs', 'configurations'], 'all consistent data directories and all lookup keys',
  'Tests load the shipped files or mocks of one or two Kanji; index consistency is about any data.',
  [J + 'src/KanjiData.cpp', J + 'src/TextKanjiData.cpp', J + 'src/Kanji.cpp', J + 'src/UcdData.cpp'],
  [('loading', J + 'src/TextKanjiData.cpp'), ('indexes', J + 'src/KanjiData.cpp insertSanityChecks / findBy*')],
  'generated data directories and the shipped data compared with a reference loader',
  'Generated small directories plus the shipped data with a synthetic UCD file (the real one is not in the repository).')

P('P17', 'Inconsistent data directories are rejected, never half loaded',
  'Loading a data directory whose files are missing, malformed or contradict each other (missing columns or fields, bad numbers, codes, links, radicals or stroke counts, unknown or repeated Kanji in lists) ends in an error '
  'that names the problem (and file and row where it has one); entries that contradict an earlier one (the same Kanji in two official files, Kanji not in or not marked in the Unicode data) are named in an "ERROR[n] ---" line '
  'and never replace the earlier entry in lookups by name. Loading never crashes, and data without a reported error is consistent in all views.',
  ['inputs', 'fault_sequences'], 'all single and multiple corruptions of a consistent data directory',
  'Each loader has many cross-file checks; tests exercise few of them and one at a time.',
  [J + 'src/TextKanjiData.cpp', J + 'src/UcdData.cpp', J + 'src/RadicalData.cpp', J + 'src/ListFile.cpp', J + 'src/OfficialKanji.cpp', J + 'src/KanjiData.cpp'],
  [('sanity checks', J + 'src/KanjiData.cpp insertSanityChecks'), ('file validation', J + 'src/UcdData.cpp, ' + J + 'src/RadicalData.cpp')],
  'fault injection: generated corruptions of generated directories',
  'Sampled corruptions of listed kinds.')

P('P18', 'Kanji orderings are consistent total orders',
  'Sorting Kanji by strokes (stroke count, variant count, then frequency with unranked Kanji last, then Unicode name) or by qualified name (rank of the suffix, then by strokes) gives the same order whatever the starting order, with no two different Kanji equal; Strokes, Morohashi ids (number, then kind) and radicals compare accordingly, and examples printed per radical are the first in stroke order. '
  'A qualified name marks exactly the rank it documents.',
  ['inputs'], 'all pairs and triples of Kanji with any attribute combination',
  'Strict weak ordering is a statement about all pairs and triples; tests compare a few.',
  [J + 'src/Kanji.cpp', J + 'include/kt_kanji/Kanji.h'],
  [('ordering', J + 'src/Kanji.cpp orderByQualifiedName / compareMorohashiId'), ('rank', J + 'src/Kanji.cpp qualifiedName')],
  'order axioms and reference comparator on generated Kanji',
  'Sampled.')

P('P19', 'Kanji details, readings and links follow the Unicode data',
  'The details shown for a Kanji contain exactly the attributes it has, in the documented order and subject to the selected fields. Readings derived from Unicode data are the kana conversion of the listed Rōmaji, '
  'links between variant and standard forms point to the defined targets, and old/new form relations are mutual.',
  ['inputs', 'configurations'], 'all Kanji attribute combinations, field masks and Unicode records',
  'Field masks and attribute combinations multiply; tests sample a few Kanji.',
  [J + 'src/Kanji.cpp', J + 'src/Ucd.cpp', J + 'src/UcdData.cpp', J + 'src/OfficialKanji.cpp', J + 'src/Radical.cpp'],
  [('info', J + 'src/Kanji.cpp Kanji::info'), ('readings', J + 'src/UcdData.cpp getReadingsAsKana'), ('links', J + 'src/UcdData.cpp processUcd links')],
  'reference rendering and reference link resolution on generated records',
  'Sampled.')

P('P20', 'Kanji groups contain exactly what the group files define',
  'Loading meaning and pattern groups gives every line as one group with the listed members in order (expanding family parents), the right pattern kind and reading, and each member findable from its Kanji. '
  'A malformed group line, a name already used in the same file or a group of less than two members stops loading with an error naming file and row; members that aren\'t known Kanji, '
  'and Kanji that already are in another pattern group, are reported and leave the other members as they are.',
  ['inputs'], 'all group files over any set of Kanji',
  'Group files are free-form input; tests use one or two lines per kind.',
  [Q + 'src/GroupData.cpp', Q + 'src/Group.cpp', Q + 'include/kt_quiz/Group.h'],
  [('loading', Q + 'src/GroupData.cpp loadGroup / createGroup'), ('pattern kinds', Q + 'src/Group.cpp')],
  'generated group files against a reference parser',
  'Sampled.')

P('P21', 'Compound words are indexed under each of their Kanji',
  'Every compound in the data files is loaded once with its name, reading and grade, and is found from each Kanji it contains exactly once and from no other. Malformed, duplicate or contradictory lines are reported as errors.',
  ['inputs'], 'all compound-word files over any set of Kanji',
  'Tests use a few lines; repeats of Kanji and duplicates across grades need generated files.',
  [Q + 'src/Jukugo.cpp', Q + 'src/JukugoData.cpp'],
  [('loading', Q + 'src/JukugoData.cpp'), ('index', Q + 'src/JukugoData.cpp createJukugo / find')],
  'generated word files against a reference parser and index',
  'Sampled.')

P('P22', 'Character counts over files are exact',
  'Counting characters in files and directories reports, for each distinct character, exactly the number of its occurrences over all visited files (and names, where asked), how many came from each file name used as a tag, and counts malformed '
  'sequences, combining marks and variation selectors separately. Totals equal the sum over characters and do not depend on how text is split into files.',
  ['inputs', 'histories'], 'all file trees, file contents and filter predicates',
  'Counts must hold for arbitrary content and trees; tests use a few small files.',
  [S + 'src/Utf8Count.cpp', S + 'include/kt_stats/Utf8Count.h'],
  [('counting', S + 'src/Utf8Count.cpp Utf8Count::add / addFile'), ('tags', S + 'src/Utf8Count.cpp')],
  'generated file trees against a reference counter',
  'Sampled.')

P('P23', 'Furigana removal removes only bracketed readings',
  'When asked to ignore furigana, only a wide-bracketed kana reading directly following a Kanji (or wide letter) is left out of the counts, also when one line break falls before or inside it; all other text, including malformed bytes, is counted as without the option. '
  'The number of replacements equals the number of changed lines (a line and the continuation of its reading on the next one count as one), and lines without furigana are never altered.',
  ['inputs'], 'all texts and line splits containing brackets, kana, Kanji and malformed bytes',
  'Line joining and partial brackets need many contexts; tests use a few lines.',
  [S + 'src/Utf8Count.cpp', S + 'include/kt_stats/Utf8Count.h'],
  [('pattern', S + 'src/Utf8Count.cpp removeFurigana / processFileWithRegex')],
  'reference remover (no regular expressions) over generated lines',
  'Sampled with bounded line length.')

P('P24', 'The statistics report adds up and ranks by count',
  'For any set of input files the report\'s totals, unique counts and percentages per category agree with an independent count of the files; Kanji are ranked by descending count and per-type breakdowns add up to the category total. '
  'Options change only which details are shown.',
  ['inputs', 'configurations'], 'all input texts and all option combinations',
  'Tests check fixed small inputs where ties and ranks rarely matter.',
  [S + 'src/Stats.cpp', S + 'include/kt_stats/Stats.h'],
  [('report', S + 'src/Stats.cpp Stats::processCount / printKanjiTypeCounts'), ('ranking', S + 'src/Stats.cpp Count::operator<')],
  'parse-back of printed reports against a reference counter',
  'Sampled over the shipped Kanji data.')

P('P25', 'The format program loses no text',
  'The format program prints every line of the given file, in order and unchanged, except that a line consisting only of kana that follows a line ending in a Kanji is joined to it inside wide brackets (and the text after it continues on the same line). '
  'Nothing else is added, and the last line is treated like any other, with or without a final newline or a following line.',
  ['inputs'], 'all file contents',
  'There is no test of this program.',
  ['apps/formatMain.cpp'],
  [('loop', 'apps/formatMain.cpp main')],
  'differential against a reference formatter over generated input',
  'Sampled.')

P('P26', 'List quizzes ask each question once and score truthfully',
  'A list quiz asks about every selected Kanji in the chosen order, always offers the correct answer exactly once among distinct choices, and the final score, mistakes and skipped questions equal what the player did, whatever mixture of answers, skips, going back, details and '
  'quitting is typed.',
  ['inputs', 'histories'], 'all lists, orders, choice counts and sequences of typed input',
  'Sessions are histories with going back and re-answering; tests play a few fixed ones.',
  [Q + 'src/ListQuiz.cpp', Q + 'src/Quiz.cpp', Q + 'include/kt_quiz/ListQuiz.h'],
  [('question loop', Q + 'src/ListQuiz.cpp ListQuiz::start / populateAnswers'), ('scoring', Q + 'src/Quiz.cpp Quiz::~Quiz / beginQuizMessage')],
  'stateful: generated sessions replayed against a reference player model by parsing the transcript',
  'Sampled.')

P('P27', 'Group quizzes match answers to members and score truthfully',
  'A group quiz shows every group with the requested member types, offers exactly the members\' readings in some order, accepts an answer only once, and counts a group as correct exactly when every reading was matched; going back, editing, refreshing, toggling meanings and skipping never change '
  'another group\'s result.',
  ['inputs', 'histories'], 'all group lists, sizes, member filters and sequences of typed input',
  'Sessions are histories, and groups above 26 members use a second alphabet; tests play a few fixed sessions.',
  [Q + 'src/GroupQuiz.cpp', Q + 'src/Quiz.cpp', Q + 'include/kt_quiz/GroupQuiz.h'],
  [('session', Q + 'src/GroupQuiz.cpp GroupQuiz::start / getAnswer / editAnswer'), ('checking', Q + 'src/GroupQuiz.cpp checkAnswers')],
  'stateful: generated sessions replayed against a reference player model by parsing the transcript',
  'Sampled.')

P('P28', 'Any identifier of a Kanji leads to the same lookup report',
  'The quiz program finds a Kanji from its character, Unicode code, Morohashi id, Nelson id or frequency and prints the same details for each; program modes, list choices and question orders given as options select exactly what the interactive menus would. '
  'Unknown identifiers and malformed options give an error message and nothing else.',
  ['inputs', 'configurations'], 'all argument lists and identifiers',
  'Identifier syntax and options are free text; tests cover some well-formed ones.',
  [Q + 'src/QuizLauncher.cpp', Q + 'include/kt_quiz/QuizLauncher.h'],
  [('options', Q + 'src/QuizLauncher.cpp processArgs / processProgramModeArg'), ('lookup', Q + 'src/QuizLauncher.cpp processKanjiArg / printDetails')],
  'metamorphic comparison of reports and option/menu equivalence, with a model of the option syntax',
  'Sampled over the shipped Kanji data.')

P('P29', 'The programs end cleanly on any arguments and input',
  'Whatever arguments, data directory contents and input the four programs are given, including end of input at any point, they finish with a normal exit status and an explanation for errors: no crash, endless loop or memory error.',
  ['inputs', 'histories'], 'all argument lists, piped inputs and truncations of interactive sessions',
  'Tests drive library classes with well-behaved streams; the programs themselves have no tests.',
  ['apps/convertMain.cpp', 'apps/formatMain.cpp', 'apps/quizMain.cpp', 'apps/statsMain.cpp', Q + 'src/QuizLauncher.cpp', K + 'src/Choice.cpp', K + 'src/KanaConvert.cpp', S + 'src/Stats.cpp'],
  [('entry points', 'apps/*.cpp main'), ('end of input', K + 'src/Choice.cpp Choice::get')],
  'fuzzing of whole program runs (grammar-based arguments and input) under sanitizers',
  'Sampled.')

P('P30', 'The data directory is found and shared options are understood wherever they are put',
  "The data directory is the one given after the first '-data', or else the nearest 'data' directory with exactly ten '.txt' files searching up "
  'from the current directory and then from the directory above the program; if there is none, an error says what was wrong and where it searched. '
  "At most one of '-debug' and '-info' may be given. The programs see exactly the arguments that aren't shared options (or the directory after '-data'), "
  'in order, so shared options may be put anywhere without changing what the other arguments do.',
  ['inputs'], 'all argument lists, and all directory trees around the current directory and the program',
  'Tests use a few argument lists and two or three fixed directories; which directory is taken depends on every level of the tree, and the effect of an option on its position.',
  [J + 'src/KanjiData.cpp', S + 'src/Stats.cpp', Q + 'src/QuizLauncher.cpp'],
  [('search for data', J + 'src/KanjiData.cpp getDataDir / searchUpForDataDir / isValidDataDir'), ('shared options', J + 'src/KanjiData.cpp nextArg / getDebugMode'),
   ('remaining options', S + 'src/Stats.cpp Stats::Stats, ' + Q + 'src/QuizLauncher.cpp QuizLauncher::QuizLauncher')],
  'model-based (separate search over generated directory trees) + metamorphic (shared options inserted anywhere)',
  'Trees, argument lists and positions are sampled.')

P('P31', 'The table of wide characters generated from Unicode data is complete and minimal',
  "Given a Unicode 'EastAsianWidth.txt' file, the C++ table written by 'parseEastAsianWidth.sh' covers exactly the code points that the file lists as wide ('W') or fullwidth ('F'): "
  'none missing, none added. Its blocks are in increasing order, none touches the next one (adjacent ranges or single values of the file are joined) and a block of one code point is written with just one value. '
  'Comments, empty lines and other widths change nothing.',
  ['inputs'], 'all files of ascending single values and ranges with any widths and gaps',
  'The script has no tests; whether adjacent entries are joined depends on each combination of single values, ranges, gaps and the entry at the end of the file.',
  ['scripts/parseEastAsianWidth.sh'],
  [('joining of entries', 'scripts/parseEastAsianWidth.sh process / one_bigger'), ('output', 'scripts/parseEastAsianWidth.sh out')],
  'model-based over generated files (set of wide code points against the blocks written)',
  'Files are sampled.')

P('P32', "The differences 'ucdDiff.sh' prints are exactly the differences in the Unicode data",
  "Given one code point, 'ucdDiff.sh' prints every field the Unicode XML file has for that character with its value; with '-p' just the general and non-empty CJK fields. Given two code points (or one and two files with '-d'), "
  'it prints, for each side, exactly the fields that the other side does not have with the same value, and nothing for fields that are the same. A code point may be given as hex digits in any case or as the character itself. '
  'Missing files, unknown characters and wrong numbers of arguments end with an error.',
  ['inputs'], 'all pairs of characters with any missing, empty, equal or different fields, and all argument lists',
  'The script has no tests; results depend on each combination of absent, empty and equal fields and names that are part of other names.',
  ['scripts/ucdDiff.sh'],
  [('comparison', 'scripts/ucdDiff.sh diffs'), ('finding a character', 'scripts/ucdDiff.sh getXml / getCodePoint'), ('options', 'scripts/ucdDiff.sh usage / checkFile')],
  'model-based over generated XML files and argument lists (fields expected from the generated characters)',
  'Files and arguments are sampled. The exit status of a comparison is not checked.')

P('P33', 'The Kanji data extracted from the Unicode data has the right characters, values and links',
  "Given a Unicode 'ucd.all.flat.xml' file, 'parseUcdAllFlat.sh' writes one row, in the order of the file, for each character that has a Japanese reading (own or by a link), a Morohashi ID or a JSource (simplified radicals are left out unless used in Japan), and none for any other. "
  'Each row has the values of that character only: code, name, block, version, radical, strokes and a different second count, first Pinyin, Morohashi and Nelson IDs without padding, sources, JSource, Joyo and Jinmei flags, definition and readings. '
  'Links follow the documented order (Jinmei, Traditional, Simplified, Compatibility, Definition, Semantic), only go to characters with a reading or a Japanese ID, never to the character itself or to the same one twice; '
  "a character without readings gets the definition and readings of its link, and its link type is marked with '*'. The totals printed agree with the rows, and the file can be loaded by the programs.",
  ['inputs'], 'all files of characters with any attributes and variants pointing to each other',
  'The script has no tests; a row depends on attributes of other characters before and after it, and on what was left set by the previous record.',
  ['scripts/parseUcdAllFlat.sh', J + 'src/UcdData.cpp'],
  [('reading a record', 'scripts/parseUcdAllFlat.sh setVars / populateArrays'), ('links', 'scripts/parseUcdAllFlat.sh findDefinitionLinks / getLinks / getTraditionalLinks'),
   ('strokes', 'scripts/parseUcdAllFlat.sh getStrokesFromAdobeRef'), ('rows', 'scripts/parseUcdAllFlat.sh processRecord / printResults')],
  'model-based over generated Unicode files (separate computation of each row, then loaded by UcdData)',
  "Files are sampled. 'iconv' and 'xxd' aren't installed here: the script runs with small stand-ins for them. The expected totals of a full Unicode file printed at the end are not checked.")

NOT_APPLICABLE = {}


def main():
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != '_'}, ensure_ascii=False) + '\n')
    checks, na = [], []
    for p in PROPS:
        i = p['id']
        if os.path.exists(os.path.join(VERIF, 'props', i + '.cpp')):
            checks.append({'property': i,
                           'quick_cmd': 'python3 tools/check.py run ' + i,
                           'thorough_cmd': 'VERIF_TIER=thorough python3 tools/check.py run ' + i,
                           'technique': TECH + p['_tech'],
                           'level': 'exploration',
                           'level_note': p['_note'] + ' Runs under address and undefined-behaviour sanitizers on the libraries built from the working tree; '
                                         'a violation is shrunk and reproduced three times before it is reported.'})
        else:
            na.append({'property': i, 'reason': NOT_APPLICABLE.get(i, 'no check has been built yet')})
    m = {'version': 1, 'setup_cmd': 'python3 tools/check.py build all', 'checks': checks,
         'not_applicable': na,
         'notes': 'No hooks are needed in the repository. tools/properties.py is the source of this file and of properties.jsonl.'}
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, ensure_ascii=False, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
