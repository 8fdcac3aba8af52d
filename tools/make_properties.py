import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])
    if state: a['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: a['observe_at']=observe
    a['hook_needed']=None
    assert len(title)<=80,title
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))
S='src/ppocr/'
p('C01','Supported image files decode to exactly the picture they describe',
 'For every well-formed binary colour (P6), binary bitmap (P4) or ASCII 0/1 (P1, P3) image file, with or without comment lines, decoding yields an image of the stated width and height. Every pixel is letter or background exactly as its bytes say: in P4 a set bit is background and a clear bit letter, in P1/P3 a 1 is letter and a 0 background, and in P6 a pixel is background exactly when its grey level, the sum of 511 R, 396 G and 117 B each divided by 1024 to the nearest integer, is below the luminance threshold (128 unless given). The way the operating system splits the reads of the file does not change the picture.',
 ['inputs','fault_sequences'],'every well-formed file of the supported kinds (all sizes, row paddings, comment layouts, sample values, whitespace layouts of the ASCII kinds), every luminance threshold, and every split of the file into partial reads',
 'The unit test decodes two small P6 files with the default threshold; no P4 or ASCII file, no width that is not a multiple of 8, no threshold and no partial read is ever tried.',
 [S+'image/image_from_file.cpp',S+'image/image_from_file.hpp'],[('header parser and the three pixel decoders',S+'image/image_from_file.cpp'),('whole-file reader',S+'image/image_from_file.cpp')],
 ['the decoded image returned to the caller'])
p('C02','Malformed or unreadable image files are rejected, never misread',
 'A file that is not exactly one complete well-formed image of a supported kind (wrong magic, malformed or truncated header, zero or overflowing dimensions, unsupported kind, an ASCII sample other than 0 or 1, too few or too many data bytes) or that cannot be opened or fully read is reported as an error. For any byte sequence, decoding either raises that error or returns an image whose every pixel comes from the data of the file, without undefined behaviour, out-of-bounds access, or crash.',
 ['inputs','fault_sequences'],'every byte sequence given as an image file (truncations, extensions, mutations and hostile headers of valid files), every unreadable path, and every read error or premature end of file',
 'No test gives the decoder a malformed file; header arithmetic, truncation at each byte and read failures are an unbounded input space.',
 [S+'image/image_from_file.cpp'],[('header validation, size checks, data length checks',S+'image/image_from_file.cpp')],['exception or image returned'])
p('C03','Character segmentation loses no pixel and cuts exactly at gaps',
 'Scanning an image for successive character boxes yields boxes from left to right that do not overlap and together contain every letter pixel of the image exactly once, up to and including its right and bottom borders; each box is tight (its first and last rows and columns contain a letter pixel). Two adjacent columns end up in different boxes exactly when no letter pixel of the left column touches a letter pixel of the right one, horizontally or diagonally. The scan ends with an empty box as soon as only background remains.',
 ['inputs'],'every image, including letters touching any border, one-row and one-column images, touching and interleaved letters',
 'The unit test scans one screenshot of an eight-letter word with wide margins; borders, diagonal contacts and degenerate sizes are never scanned.',
 [S+'box_char/make_box_character.cpp',S+'box_char/box.hpp','docs'],[('column scan, neighbour test, row trimming',S+'box_char/make_box_character.cpp')],['the sequence of boxes'])
p('C04','Image copy, cut, rotation, comparison and display preserve pixels',
 'Cutting a rectangle out of an image yields exactly the pixels of that rectangle, copying yields an equal independent image, and a quarter turn maps column W-1-i to row i so that four turns restore the image. Two images are equal exactly when dimensions and all pixels are equal, and the image ordering is a strict total order (width, height, then pixels) consistent with that equality. Displaying an image prints every row unchanged inside a frame, and row and band scans report a column as letter exactly when a letter pixel lies in it.',
 ['inputs'],'every image and every rectangle inside it, every pair and triple of images',
 'Tests rotate and print one picture; the ordering, sections at borders and degenerate sizes are not exercised.',
 [S+'image/image.cpp',S+'image/image.hpp',S+'utils/image_compare.cpp',S+'image/coordinate.cpp',S+'image/image_from_string.cpp'],[('section/rotate90/clone/operator==',S+'image/image.cpp'),('image_compare',S+'utils/image_compare.cpp')])
p('C05','Extracted character features equal the quantities they stand for',
 'For every letter bitmap, each extracted feature equals its definition computed exactly: letter density, width share, upper/lower balance by count and by distance over halves and over the two triangles, density of the diagonal band, number of full bars, run alternations of the reference rows and bands, and the border shares of the background regions, each on the bitmap and where defined on its quarter turn. Percentage features lie in 0..100 and balance features in 0..200. No bitmap, however large, full, empty or degenerate (one row, one column), causes overflow, division by zero or out-of-bounds access.',
 ['inputs'],'every bitmap from 1x1 up to several hundred pixels a side, of every fill',
 'Each strategy test checks a handful of hand-drawn letters; degenerate sizes, all-letter and all-background bitmaps and large bitmaps whose weighted sums exceed 32 bits are not tried, and most triangle features have no test at all.',
 [S+'strategies/hdirection.cpp',S+'strategies/hgravity.cpp',S+'strategies/dvdirection.cpp',S+'strategies/dvgravity2.cpp',S+'strategies/dzdensity.cpp',S+'strategies/alternations.cpp',S+'strategies/zone.cpp',S+'strategies/proportionality_zone.cpp',S+'strategies/utils/count_zone.hpp'],[('one extraction function per feature',S+'strategies/'),('orientation policy',S+'loader2/datas_loader.hpp')],['feature table entries'])
p('C06','Extracted features depend only on the bitmap, not on processing history',
 'The features obtained for a bitmap are the same whether it is processed alone, in bulk with others, with extractor state reused from any earlier bitmaps, or with the features requested in another order. Reused internal caches and buffers never leak a value computed for another bitmap or for the other orientation. Comparing table rows for equality agrees with bitmaps having identical features.',
 ['histories','inputs'],'every sequence of bitmaps processed with the same extractor state, including repeats, growing and shrinking sizes',
 'Tests extract from one bitmap at a time with fresh state, so stale caches and reused buffers cannot show.',
 [S+'strategies/utils/context.hpp',S+'strategies/utils/count_zone.hpp',S+'loader2/datas_loader.hpp',S+'defined_loader.hpp'],[('cached contexts reset per bitmap; one context per orientation',S+'strategies/utils/context.hpp'),('grow-only zeroed buffers',S+'strategies/utils/count_zone.hpp')])
p('C07','Similarity scores are sound for every pair of feature values',
 'The similarity of any two values of a feature lies in 0..1, is 1 for identical values, equals the documented measure (100 minus the scaled difference for numbers, share of equal entries for tuples, closeness of border shares for background regions, equality for bar counts), and is computed without fault even for values that contain zeros. The matching distance test agrees with it: numbers are out of distance exactly when they differ by more than the distance, tuples are in distance exactly when the score in percent reaches it.',
 ['inputs'],'every pair of feature values that any bitmaps or stored feature tables can produce, and every distance',
 'Tests compare at most a dozen fixed letters pairwise; zero shares, unequal region counts and boundary distances are not covered.',
 [S+'strategies/relationship/interval.hpp',S+'strategies/relationship/array_compare.hpp',S+'strategies/relationship/equal.hpp',S+'strategies/proportionality_zone.cpp',S+'strategies/utils/relationship.hpp'],[('relationship types',S+'strategies/relationship/')])
p('C08','Learning records every character of an image with its own label',
 'The learning tool turns each image and transcription into one glyph record per separated character, in reading order, carrying exactly the pixels of that character, the transcription token of the same rank and the given font name. If the transcription has more or fewer tokens than the image has characters, or a file cannot be read, the run fails instead of mislabelling. The glyph listing tool prints the same characters in the same order.',
 ['inputs','configurations'],'every image, transcription, font name, luminance option and number of image/transcription pairs',
 'No test runs the learning tools.',
 ['main/write_glyphs.cpp','main/show_glyphs.cpp',S+'loader2/glyphs_loader.cpp',S+'loader2/image_io.cpp'],[('pairing loop and both mismatch errors','main/write_glyphs.cpp')],['tool output and exit status'])
p('C09','Normalising glyph files merges equal bitmaps and keeps every label',
 'Normalising any glyph files produced by learning or by normalising yields every distinct bitmap exactly once, sorted by width, height and pixels, each with the sorted, duplicate-free union of all (word, font, line) labels it has in any input file. The result does not depend on the order or split of the input files or on duplicates, and normalising it again changes nothing. No label and no bitmap is lost or invented.',
 ['inputs','histories'],'every collection of glyph files, in every order and split, with every pattern of repeated bitmaps',
 'No test runs the normaliser; merging bugs need particular patterns of equal neighbours after sorting.',
 ['main/normalize_glyphs.cpp',S+'loader2/glyphs_loader.cpp',S+'utils/image_compare.cpp'],[('sort, adjacent search, in-place merge','main/normalize_glyphs.cpp')],['tool output'])
p('C10','Glyph and feature files survive saving and loading unchanged',
 'Loading a saved glyph file gives back the same bitmaps and labels in the same order, and saving it again is byte-identical. The feature file written for a glyph file holds the features of each glyph in order, loading it gives back every value of every feature, and saving it again is byte-identical.',
 ['inputs'],'every glyph collection (bitmap sizes, multi-byte words, any number of labels) and every feature table, including empty ones',
 'Tests round-trip a few glyphs with two features; region lists of varying length, empty lists and the complete feature set are not covered.',
 [S+'loader2/glyphs_loader.cpp',S+'loader2/image_io.cpp',S+'defined_loader.hpp','main/write_datas.cpp'],[('stream operators',S+'loader2/glyphs_loader.cpp'),('feature table writer and reader',S+'defined_loader.hpp')])
p('C11','The shipped databases can be regenerated byte for byte',
 'Running the documented learning procedure (glyph extraction, normalisation, feature extraction) on the shipped font images reproduces the shipped latin glyph file and the shipped latin, cyrillic and combined feature files byte for byte. The regenerated combined database recognises the sample screenshot of the test suite as its known text.',
 ['inputs','configurations'],'all shipped font images, transcriptions and databases',
 'The only end-to-end test needs a database that is not shipped, so nothing compares the tools with the databases users rely on.',
 ['learning','main/write_glyphs.cpp','main/normalize_glyphs.cpp','main/write_datas.cpp','resources/datas/latin.txt'],[('learning procedure','learning')])
p('C12','A dictionary accepts exactly the words it was built from',
 'A dictionary built from a list of words contains exactly those words: every listed word is found as a complete word, and no other string (in particular no prefix, extension or variation of one) is. Order, repetition and empty entries of the list do not matter. Saving and loading a dictionary preserves its words, and two dictionaries of the same words save to identical bytes.',
 ['inputs'],'every list of words over any alphabet (multi-byte letters, shared prefixes, words that are prefixes of others, duplicates, empty entries)',
 'Tests build two tiny word lists; sorting with shared prefixes, multi-byte order, duplicates and the flattened layout of large tries are an unbounded space.',
 [S+'container/trie.hpp',S+'spell/dictionary.cpp',S+'utils/utf.hpp'],[('trie construction and flattening',S+'container/trie.hpp'),('text format',S+'spell/dictionary.cpp')])
p('C13','The dictionary builder uses every line of every word file',
 'The dictionary built by the command line tool contains exactly the non-empty lines of all the readable files given, whatever their number and order and whether or not the last line ends with a newline. A file that cannot be opened is reported and does not affect the others.',
 ['inputs','configurations'],'every number, order and content of word files, including empty, duplicate, unterminated and missing ones',
 'No test runs the tool.',
 ['main/make_trie_dictionary.cpp',S+'spell/dictionary.cpp'],[('file loop','main/make_trie_dictionary.cpp')],['tool output loaded back'])
p('C14','Word disambiguation finds a dictionary word exactly when one fits',
 'Given the candidate texts of each position, disambiguation succeeds exactly when choosing one candidate per position can spell a word of the dictionary, and it then appends that word to the output. When several choices fit it takes the one that prefers the earlier-listed candidate at the earliest position. On failure the output is unchanged; on success what it held before is unchanged.',
 ['inputs'],'every dictionary, every number of positions, every list of candidates including multi-byte letters and candidates of several letters',
 'Tests try a few words with one-letter candidates; candidates of several letters (ligatures of the shipped databases), preference between several fitting words and pre-filled output are not tried.',
 [S+'spell/word_disambiguouser.hpp',S+'spell/dictionary.hpp',S+'utils/utf.hpp'],[('backtracking walk of the trie',S+'spell/word_disambiguouser.hpp')])
p('C15','Recognised glyph labels keep their exact word and font identity',
 'After loading a glyph database for recognition, every label resolves to exactly the word text it was saved with; two labels share a word identity exactly when their words are the same text and a font identity exactly when their fonts are the same. Looking up a text finds its identity exactly when some label is that text, never for a mere prefix or extension. Word line information applies to exactly the words it names (of at most eight bytes; longer ones are passed over).',
 ['inputs'],'every glyph database: any number of labels per glyph, words of any length and byte content, words that are prefixes of others',
 'No test loads a recognition database; word lengths that are multiples of four and prefix-related words decide whether the packed table is right.',
 [S+'ocr2/glyphs.cpp',S+'ocr2/glyphs.hpp',S+'ocr2/words_infos.hpp',S+'ocr2/word_lines.cpp'],[('packed word table and ordered lookup',S+'ocr2/glyphs.hpp'),('line info table',S+'ocr2/words_infos.hpp')],state=[('packed words','length-prefixed word texts addressed by word identity',S+'ocr2/glyphs.cpp')])
p('C16','Recognition returns exactly the candidates of an exhaustive search',
 'For any glyph database and any bitmap, the candidate labels returned are those an exhaustive scoring of all stored glyphs gives: glyphs within a tenth of the range on every numeric feature, scored by the product of their similarities; unless a perfect score exists, refined by requiring at least half similarity of bars and alternations and, for glyphs whose word has other stored glyphs, a background layout at least half similar to one of those others. Of the glyphs with the same list of words only the best scoring is kept, and the labels of those scoring at least half of the best (or perfect, when a perfect one exists) are listed in order of decreasing score.',
 ['inputs'],'every glyph database and every bitmap, including databases with repeated word lists, several labels per glyph and near-identical glyphs',
 'The unit test scores one letter against a toy database with a single feature.',
 [S+'ocr2/compute_image.hpp',S+'ocr2/reduce_universe.hpp',S+'ocr2/sort_probabilities.hpp',S+'ocr2/data_indexes_ordered.hpp',S+'ocr2/indexes_ordered.hpp',S+'ocr2/data_indexes_by_words.cpp',S+'ocr2/views_index_ordered.hpp',S+'ocr2/insert_views.hpp'],[('sorted first index, successive reductions, unique by word list',S+'ocr2/compute_image.hpp')],['candidate list'])
p('C17','Recognition recognises what it learnt, independently of history',
 'Every bitmap stored in a glyph database is recognised with candidates that include every word it is labelled with. The candidates of a bitmap do not depend on the bitmaps recognised before it with the same state, on repetition, or on the order of requests. Reordering the glyphs of the database does not change the set of candidate words of a stored bitmap that has a unique best match.',
 ['inputs','histories'],'every glyph of the shipped databases and of generated ones, every order of recognition requests and of database entries',
 'No test recognises anything with the complete feature set.',
 [S+'ocr2/compute_image.hpp',S+'ocr2/views_index_ordered.hpp',S+'ocr2/image_context.hpp',S+'ocr2/cache.hpp'],[('per-image reset of the contexts',S+'ocr2/compute_image.hpp'),('word list identities',S+'ocr2/views_index_ordered.hpp')])
p('C18','The text line filter drops exactly candidates contradicting the line',
 'A character of a text line that has several candidate words loses exactly the candidates whose known position class contradicts the bottom of its box with respect to the base line and then the top of its box with respect to the mean line: above means at least two rows above the line, below at least two rows under it, on the line one row off at most, and combined classes accept either side of their common row. The base line is the most frequent bottom row of the boxes (the smallest on ties), the mean line the most frequent top row of the characters reduced to one word that is known to sit on both lines. Candidates of unknown class and characters with a single candidate word are never touched, remaining candidates keep their order, and any number and placement of boxes, including none and a single one, is handled within bounds.',
 ['inputs'],'every line of boxes, candidate lists and word line tables',
 'No test runs the filter; election with few boxes and mixed groups of candidates is where it fails.',
 [S+'ocr2/filter_by_lines.cpp',S+'ocr2/words_infos.hpp'],[('line election histogram, per-word predicate, in-place compaction',S+'ocr2/filter_by_lines.cpp')],['candidate lists after filtering'])
p('C19','The font filter resolves ambiguity by the dominant font only',
 'When the unambiguous characters of a line all share one font, or the most frequent font among them counts at least half (rounded down) of the number of characters of the line, every ambiguous character is reduced to its first candidate of that font, or to its best candidate if it has none; otherwise nothing changes. Unambiguous and unrecognised characters are never changed, and the reported font is the most frequent one (any of them on ties, none when there is no unambiguous character).',
 ['inputs'],'every line of candidate lists over any number of fonts',
 'No test runs the filter.',
 [S+'ocr2/filter_by_font.cpp'],[('font vote',S+'ocr2/filter_by_font.cpp')])
p('C20','Text assembly outputs every character once, in order, with its spaces',
 'The assembled text consists of one contribution per character, in order, with a single space exactly at the positions given between two words: an unrecognised character gives a question mark and is counted, punctuation (one of ! # $ % & ( ) * + , - . : ; < = > ? [ ] { } and the apostrophe) gives its own candidate, and each run of other characters within a word gives the dictionary word it can spell or else the best candidate of each character. The count returned is the number of unrecognised characters.',
 ['inputs'],'every line of candidate lists (unrecognised and punctuation characters at any place, including the beginning of the line), every placement of spaces and every dictionary',
 'No test assembles a text.',
 [S+'ocr2/disambiguous_with_dict.cpp',S+'spell/word_disambiguouser.hpp'],[('word, punctuation and space loop',S+'ocr2/disambiguous_with_dict.cpp')])
p('C21','Replacement rules rewrite exactly the patterns they name, and terminate',
 'Applying a list of replacement rules to a text replaces, rule after rule, every non-overlapping occurrence of the pattern from left to right by its replacement, and always terminates, even when the replacement contains the pattern. Loading a rule file yields one rule per line, in order, with an empty replacement when the line has only a pattern, whether or not the last line ends with a newline; blanks, tabs and carriage returns separate pattern and replacement.',
 ['inputs'],'every text, every rule list with non-empty patterns, every rule file',
 'No test covers replacements.',
 [S+'ocr2/replacement.cpp',S+'ocr2/replacement.hpp'],[('search and replace loop',S+'ocr2/replacement.hpp'),('rule reader',S+'ocr2/replacement.cpp')])
p('C22','The recognition tool reads a whole line as its stages prescribe',
 'For every image, the recognition tool reports as many characters as the image separates into, recognises each as the exhaustive search prescribes, filters each of its occurrences on its own by line and font, and prints the assembled text with a space where the gap before a character exceeds four pixels. Each distinct bitmap of the line is shown once, when first met, with its candidate words. The reported unrecognised count and rate (percentage of the characters) agree with the text printed.',
 ['inputs','histories'],'every line image composed of known and unknown glyphs with any gaps and vertical offsets, with and without word line table and dictionary, repeated characters included',
 'The only end-to-end test cannot run for lack of its database and covers one screenshot.',
 ['main/ocr2_extract_text.cpp',S+'ocr2/compute_image.hpp',S+'ocr2/filter_by_lines.cpp',S+'ocr2/filter_by_font.cpp',S+'ocr2/disambiguous_with_dict.cpp',S+'ocr2/image_context.hpp',S+'ocr2/cache.hpp'],[('driver loop with bitmap cache','main/ocr2_extract_text.cpp')],['tool output'])
p('C23','Damaged database files never corrupt memory or hang a tool',
 'Loading a truncated, mutated or arbitrary glyph, feature, dictionary, word line or replacement file, and using whatever was loaded, either reports an error or works on the data that was read. It never reads or writes out of bounds, divides by zero, loops forever or uses uninitialised data. A dictionary or feature table that is incomplete or whose structure is inconsistent is reported as an error.',
 ['inputs'],'every byte sequence given as any of the database files, in particular truncations and number mutations of valid ones (counts limited by available memory)',
 'Tests load only well-formed files.',
 [S+'ocr2/glyphs.cpp',S+'defined_loader.hpp',S+'spell/dictionary.cpp',S+'loader2/glyphs_loader.cpp',S+'loader2/image_io.cpp',S+'ocr2/word_lines.cpp',S+'ocr2/replacement.cpp',S+'utils/read_file.hpp'],[('stream readers and their validation',S+'defined_loader.hpp'),('end-of-file test',S+'utils/read_file.hpp')])
p('C24','Tools fail visibly on bad usage and unreadable input',
 'Every command line tool exits with a non-zero status when called with too few or malformed arguments, or when an input file is missing or unreadable (the dictionary builder only reports and skips a file it cannot open) or a luminance option is not accepted, and says so on standard error; on success it exits with zero. A non-zero exit never comes with memory corruption.',
 ['inputs','configurations','fault_sequences'],'every tool and every combination of missing, unreadable, empty or malformed arguments',
 'No test runs the tools.',
 ['main/write_glyphs.cpp','main/show_glyphs.cpp','main/normalize_glyphs.cpp','main/write_datas.cpp','main/ocr2_extract_text.cpp','main/make_trie_dictionary.cpp'],[('argument checks and error returns','main/')])
p('C25','A tool whose output cannot be written does not report success',
 'When the standard output of a command line tool cannot take everything the tool has to write (full device, file size limit, closed output, vanished reader, input/output error at any write), the tool ends with a non-zero status and a message, or by the signal the system sends for it; partial and interrupted writes that succeed in the end neither lose nor duplicate output, and the tool exits with zero.',
 ['inputs','fault_sequences','crash_points'],'every tool, every output, every place at which writing fails and every sequence of partial, interrupted and failing writes',
 'No test runs the tools with a failing output.',
 ['main/write_glyphs.cpp','main/show_glyphs.cpp','main/normalize_glyphs.cpp','main/write_datas.cpp','main/ocr2_extract_text.cpp','main/make_trie_dictionary.cpp'],[('last flush of the output','main/')])
p('C26','An input that cannot be read to its end is never taken for a shorter one',
 'When reading an input file of a command line tool fails at any place (input/output error, stale or lost file, a directory in place of a file), even once only, the tool ends with a non-zero status and a message. The way in which the contents arrive (all at once, in small pieces, or, except for images, through a pipe) does not change the output; an interrupted read is repeated or reported.',
 ['inputs','fault_sequences'],'every tool, every input file, every byte at which reading fails, every error and every way to cut the contents into reads',
 'No test reads a file that fails.',
 ['main/write_glyphs.cpp','main/show_glyphs.cpp','main/normalize_glyphs.cpp','main/write_datas.cpp','main/ocr2_extract_text.cpp','main/make_trie_dictionary.cpp',S+'utils/read_file.hpp',S+'image/image_from_file.cpp',S+'loader2/glyphs_loader.cpp'],[('end-of-file test after reading','main/'),('end-of-file test',S+'utils/read_file.hpp'),('read loop',S+'image/image_from_file.cpp')])
p('C27','Running out of memory never gives a wrong result reported as success',
 'When any memory request of a command line tool is refused, once or from some point on, the tool either produces exactly its normal output and succeeds, or ends with a non-zero status (or by the abort of an unhandled exception) and a message. It never crashes, hangs, or reports success with a part of the result; the dictionary builder may leave out a file that it reports as not opened.',
 ['inputs','fault_sequences','crash_points'],'every tool, every input, every memory request as the one that is refused, single and repeated refusals',
 'No test runs short of memory.',
 ['main/write_glyphs.cpp','main/show_glyphs.cpp','main/normalize_glyphs.cpp','main/write_datas.cpp','main/ocr2_extract_text.cpp','main/make_trie_dictionary.cpp',S+'utils/read_file.hpp',S+'container/trie.hpp'],[('end-of-file tests that notice a swallowed exception','main/')])
p('C28','Threads with their own state can share one database',
 'Any number of threads, each with its own recognition state (scores, image context, feature context, bitmap cache), images and streams, can decode, segment, recognise, filter, assemble, replace, learn, extract features, load database and dictionary files and build and query dictionaries at the same time, sharing loaded databases, word line tables, dictionaries, rule lists and pictures for reading, without a data race, and each gets exactly what it gets alone.',
 ['inputs','schedules','histories'],'every number of threads, every interleaving of their stages, every database and picture',
 'All tests are single-threaded.',
 [S+'ocr2/compute_image.hpp',S+'ocr2/glyphs.hpp',S+'ocr2/words_infos.hpp',S+'ocr2/image_context.hpp',S+'ocr2/disambiguous_with_dict.cpp',S+'ocr2/filter_by_lines.cpp',S+'ocr2/filter_by_font.cpp',S+'spell/dictionary.cpp',S+'spell/word_disambiguouser.hpp',S+'strategies/utils/context.hpp',S+'box_char/make_box_character.cpp',S+'image/image_from_file.cpp',S+'defined_loader.hpp'],[('all state in objects, none in static storage',S),('recognition state passed by the caller',S+'ocr2/compute_image.hpp')])
p('C29','The result of a tool depends on nothing but the contents of its inputs',
 'The output and the success of a command line tool depend only on its options and on the contents of its input files: not on the environment (any variable) and locale, the kind of thing the standard output is (file, pipe, socket, terminal), the working directory, the names, links, times and modes of the files, the name of the program, the state of the other descriptors, the user, the resource limits (while they suffice), the layout and previous contents of memory, or other tools that run at the same time. No tool uses data that was never initialised.',
 ['inputs','configurations','schedules'],'every tool, every valid input and every surrounding in which it can run',
 'Tests run in one environment.',
 ['main/write_glyphs.cpp','main/show_glyphs.cpp','main/normalize_glyphs.cpp','main/write_datas.cpp','main/ocr2_extract_text.cpp','main/make_trie_dictionary.cpp',S+'ocr2/compute_image.hpp',S+'defined_loader.hpp'],[('plain C locale streams','main/'),('every object initialised before use',S)])
p('C30','What is learnt from pictures is read back as the text it was learnt with',
 'After learning characters from pictures with their transcriptions, normalising the glyphs and extracting their features with the tools, the recognition tool reads the same pictures, and any other picture made of the same bitmaps in any order, spacing, height and supported file kind, as exactly the words they were learnt with, spaces where the gap exceeds four pixels and nothing unrecognised, for every character whose bitmap has one word and does not resemble a bitmap of another word in every feature. The division into files, the repetition of characters, several fonts, the line table and the dictionary do not matter.',
 ['inputs','histories','configurations'],'every set of bitmaps and words, every arrangement in learning and reading pictures',
 'No test runs the tools in sequence.',
 ['main/write_glyphs.cpp','main/normalize_glyphs.cpp','main/write_datas.cpp','main/ocr2_extract_text.cpp',S+'ocr2/compute_image.hpp',S+'defined_loader.hpp',S+'loader2/glyphs_loader.cpp',S+'box_char/make_box_character.cpp'],[('learning chain','main/'),('perfect score of a stored bitmap',S+'ocr2/compute_image.hpp')],['text printed by the recognition tool'])
p('C31','Operations give back what they take and leave their state usable',
 'Once the results of decoding an image, loading any database file, recognising, learning, extracting features or building, saving and asking a dictionary are destroyed, no memory stays allocated and no file stays open, for every input, valid or not, whether the operation succeeded or ended by an exception, in particular when any memory request is refused. Recognition state whose operation ended by an exception gives the same results afterwards as a fresh one, and state that is used again for the same inputs does not grow.',
 ['inputs','fault_sequences','histories'],'every input file, every operation, every memory request as the one that is refused, every sequence of operations with the same state',
 'No test counts resources or uses state after a failure.',
 [S+'image/image_from_file.cpp',S+'image/image.hpp',S+'ocr2/image_context.hpp',S+'ocr2/probabilities.hpp',S+'ocr2/glyphs.cpp',S+'ocr2/compute_image.hpp',S+'container/trie.hpp',S+'strategies/utils/count_zone.hpp',S+'strategies/utils/context.hpp',S+'utils/read_file.hpp',S+'defined_loader.hpp'],[('owning handles',S),('borrowed image released by the context',S+'ocr2/image_context.hpp'),('context reset per bitmap',S+'strategies/utils/context.hpp')])
p('C32','The work of the tools grows in proportion to their input',
 'The number of instructions a tool executes grows at most in proportion, up to a logarithmic factor, to each size of its input while the others stay the same: pixels and characters of a picture whatever it shows, learning pictures, glyphs, labels, equal or distinct bitmaps, words in any order, word length, files, stored glyphs (also when all resemble the bitmap, and up to some hundreds of them with the same text), line table and dictionary entries, fonts that repeat the texts of a character, labels and glyphs of distinct fonts. A bitmap that occurs again in a line is not searched for again.',
 ['inputs'],'every size of every kind of input, the arrangements included that are unfavourable to sorting, merging, segmentation and feature extraction',
 'Tests use inputs of a few bytes.',
 ['main/normalize_glyphs.cpp','main/ocr2_extract_text.cpp','main/make_trie_dictionary.cpp',S+'box_char/make_box_character.cpp',S+'strategies/utils/count_zone.hpp',S+'container/trie.hpp',S+'ocr2/compute_image.hpp',S+'ocr2/reduce_universe.hpp',S+'ocr2/cache.hpp',S+'image/image_from_file.cpp'],[('single scans and sorts',S),('bitmap cache','main/ocr2_extract_text.cpp')],['instructions executed'])
p('C33','Tries and reordering keep exactly the elements they were given',
 'A trie built from a sorted list of distinct non-empty sequences of integers holds exactly those sequences: every prefix is one path, the children of a node are distinct and increasing, a node is terminal exactly where a sequence ends, and lower_bound finds the first child that is not less than what is asked. The flat form made from it, a copy of that, a moved one and one rebuilt from the stored nodes hold the same tree, also when it is empty and after the original is gone. Reordering a list by a permutation puts the element with number order[i] at place i and loses, repeats or alters none, whatever the kind of element.',
 ['inputs'],'every sorted list of distinct sequences over every integer element type of up to 32 bits, of every width and depth; every permutation',
 'Tests build one trie of a few words.',
 [S+'container/trie.hpp',S+'utils/reindex.hpp'],[('trie::insert_after and flat_trie',S+'container/trie.hpp'),('reindex',S+'utils/reindex.hpp')])
p('C34','UTF-8 iterators visit exactly the characters of a text and never pass its end',
 'For every valid UTF-8 text ended by a zero byte, the Unicode iterator visits the code point of each character in order, and the packed iterator the bytes of each character packed most significant first into one number; the position is just after the character, and both give zero at the end. For any other sequence of bytes ended by zero the iterators move forward at every step, come to an end within it, and never read past the zero byte.',
 ['inputs'],'every text, every zero-terminated byte sequence',
 'Tests use a handful of characters.',
 [S+'utils/utf.hpp'],[('UTF8toUnicodeIterator and UTF8Iterator',S+'utils/utf.hpp')])
p('C35',"The recogniser's lookup tables list exactly the glyphs they are asked for",
 'The glyphs listed for a value and a distance are exactly those whose value differs from it by at most the distance, each once and in order of value. The index by words lists for each glyph exactly the other glyphs with the same first word (none for a glyph without words). Two glyphs have the same list identity exactly when their lists hold the same words in the same order, and the identity is the number of one of them. Sorting and uniquing candidates by identity keeps the best of each, sorting by score puts them in descending order, and the views taken from such a list are those of the candidates from the best down to the limit. The bitmap cache finds a bitmap exactly when an equal one was stored.',
 ['inputs'],'every table of values, every glyph table, every candidate list, every sequence of bitmaps',
 'No test reaches these tables; the recogniser is run by none.',
 [S+'ocr2/indexes_ordered.hpp',S+'ocr2/data_indexes_ordered.hpp',S+'ocr2/data_indexes_by_words.cpp',S+'ocr2/views_index_ordered.hpp',S+'ocr2/sort_probabilities.hpp',S+'ocr2/insert_views.hpp',S+'ocr2/cache.hpp',S+'ocr2/probabilities.hpp'],
 [('IndexesOrdered and range_bounds',S+'ocr2/indexes_ordered.hpp'),('DataIndexesByWords',S+'ocr2/data_indexes_by_words.cpp'),('get_views_indexes_ordered',S+'ocr2/views_index_ordered.hpp'),('sort_by_views, unique_by_views, sort_by_prop',S+'ocr2/sort_probabilities.hpp')])
p('C36','Coordinates, boxes and iterators denote the values they were given',
 'Positions, sizes, boxes and enumerations (of integers wider than a character) written to a stream are read back equal; input that does not hold them fails the stream and leaves the value unchanged. Boxes are equal exactly when position and size are, and their edges, emptiness, area and containment follow from the two. Integer iterators follow integer arithmetic, order and differences. The scans of a row or a band of a bitmap give at each position whether any pixel is set, with correct distances, alternations and any/all/none; range views show exactly the elements of the range, through the proxy where there is one. Comparison of floating point numbers is symmetric, true below twice and false above four times the allowed number of steps.',
 ['inputs'],'every position, size, box, enumeration value, integer, bitmap region, array and pair of normal floating point numbers',
 'Tests compare two or three boxes and a few pixels.',
 [S+'image/coordinate.cpp',S+'image/coordinate.hpp',S+'image/image.hpp',S+'box_char/box.hpp',S+'box_char/box.cpp',S+'utils/integer_iterator.hpp',S+'utils/range_iterator.hpp',S+'utils/enum_io.hpp',S+'math/almost_equal.hpp'],
 [('operator>> and << of Index, Bounds, Box',S+'image/coordinate.cpp, '+S+'box_char/box.cpp'),('hrange scans',S+'image/image.hpp'),('integer_iterator',S+'utils/integer_iterator.hpp'),('read_enum, write_enum',S+'utils/enum_io.hpp')])
p('C37','A number announced in a file costs no more than the data behind it',
 'The memory a command line tool uses and the instructions it executes are bounded by the length of its input files, whatever the numbers in them announce: image sizes, highest values, label counts, line numbers, table sizes, feature values, list lengths, dictionary positions and child counts, line flags. A number that announces more than the file holds makes neither the memory in use nor the work of the tool larger than the file itself justifies, whether the file is then accepted or refused.',
 ['inputs'],'every number of every input file, every value of it',
 'No test measures memory or work, nor reads a file whose numbers are wrong.',
 [S+'loader2/glyphs_loader.cpp',S+'loader2/image_io.cpp',S+'ocr2/glyphs.cpp',S+'defined_loader.hpp',S+'image/image_from_file.cpp','main/write_datas.cpp',S+'spell/dictionary.cpp',S+'ocr2/word_lines.cpp'],
 [('labels, values and list entries are stored as they are read',S),('pixels are read at once',S+'loader2/image_io.cpp')],['peak memory','instructions executed'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
