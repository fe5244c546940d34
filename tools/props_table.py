PROVER = 'relational loop-invariant inference and proof over the compiled source (abstract interpretation)'
TRUST = 'Trusts clang 18 as the reading of the source, the IR normaliser and the transfer functions in lib/ppv. '

p('C01', 'Decoding an image file never touches memory outside its buffers',
  'Whatever bytes an image file contains and however the system splits the reads, loading it reads only bytes that the file actually delivered and writes only inside the pixel buffer allocated for the declared size. This holds for every supported format, including truncated, oversized and malformed files.',
  ['inputs', 'fault_sequences'], 'every file content, every sequence of read() results (short reads, errors)',
  'Tests load a few well-formed images; a header, size or short read that leads outside a buffer is one input in an unbounded set and is usually silent.',
  [S+'image/image_from_file.cpp'], [('header parsing and the two pixel loops', S+'image/image_from_file.cpp')],
  claim=(PROVER, 'proof', TRUST+'Assumes read() returns -1 or at most the count asked for, and from_chars stays in its range.'))

p('C02', 'An image that loads has every pixel from the file, and the file no more',
  'When loading an image file returns normally, every pixel of the declared width and height was written exactly once, in order, and the file held exactly the bytes needed; a file with too few or too many bytes is reported as an error instead of giving a partial image.',
  ['inputs', 'fault_sequences'], 'every file content, every sequence of read() results',
  'Tests compare a few complete files; missing tails and surplus bytes at buffer boundaries are never sampled.',
  [S+'image/image_from_file.cpp'], [('the read loops and their final length tests', S+'image/image_from_file.cpp')],
  claim=(PROVER+' with ghost cursors', 'proof', TRUST+'Decides which pixels are written and which bytes are consumed, not the value mapped to each pixel. Assumes read() returns -1 or at most the count asked for.'))

p('C03', 'Every buffer and file acquired is given back exactly once on every way out',
  'Whatever a function acquires while loading images, copying, cutting and rotating them, computing features, building candidate lists and reading or building dictionaries (a buffer, an array or a file descriptor) is released exactly once on every way out, normal or by exception, with the operation that matches how it was acquired; it is not used after it was released, and an object that was moved from no longer owns what it gave away.',
  ['inputs', 'fault_sequences'], 'every path including every call that may throw',
  'Tests take the normal path only: a leak or a double release on an exception edge or after a move is silent there.',
  [S+'image/image.hpp', S+'image/image.cpp', S+'image/image_from_file.cpp', S+'loader2/image_io.cpp', S+'ocr2/probabilities.hpp', S+'strategies/utils/count_zone.hpp', S+'spell/dictionary.cpp'],
  [('owning pointers and their moves', S+'image/image.hpp'), ('the file and its buffer', S+'image/image_from_file.cpp'), ('owning work buffers', S+'strategies/utils/')],
  claim=('path-sensitive resource typestate over the compiled source, exception edges included', 'proof', TRUST+'Storage of standard containers belongs to the library. Lifetimes of header-only types are decided in /verif/drivers/lifetimes.cpp, compiled against the current headers.'))

p('C04', 'Segmentation cuts boxes that lie inside the image and always moves on',
  'For every image with sides from 1 to 32768 and every pixel content, finding the next character box reads only pixels of that image, and the box returned starts at or right of the requested column and fits in the image (left + width <= image width, top + height <= image height). Every tool searches with the bounds of the image it searches, from the first row and a column of the image, cuts sections only inside the image, and starts each search strictly further right than the one before.',
  ['inputs'], 'every width and height from 1 to 32768, every pixel content, every number of characters on the line',
  'Tests segment one line image; glyphs touching the last column or row, blank lines and one-pixel images take other paths.',
  [S+'box_char/make_box_character.cpp', 'main/extract_text6.cpp', 'main/extract_text8.cpp', 'main/ocr2_extract_text.cpp', 'main/write_glyphs.cpp', 'main/show_glyphs.cpp'],
  [('the column, diagonal and row scans', S+'box_char/make_box_character.cpp'), ('the loops over boxes', 'main/')],
  claim=(PROVER+', callers decided against the proved contract', 'proof', TRUST+'Assumes an image object holds width*height pixels (C25) and that a callee does not write through const references.'))

p('C05', 'Feature extraction never reads or writes outside the image or its buffers',
  'For every glyph image of any content with sides from 1 to 1024, computing any of the features reads only pixels of that image and touches only the part of each work buffer that was allocated for that image. This includes the buffers shared between features.',
  ['inputs'], 'every width and height from 1 to 1024, every pixel content',
  'Tests compute features of a handful of small glyphs; a bad index at another aspect ratio or size stays silent there.',
  [S+'strategies/utils/horizontal_direction.hpp', S+'strategies/utils/horizontal_gravity.hpp', S+'strategies/utils/count_zone.hpp', S+'strategies/utils/context.hpp', S+'strategies/zone.cpp', S+'strategies/proportionality_zone.cpp', S+'strategies/alternations.cpp', S+'strategies/density.cpp'],
  [('loops over rows, columns, diagonals and zones', S+'strategies/'), ('buffer sizes', S+'strategies/utils/context.hpp')],
  claim=(PROVER, 'proof', TRUST+'Assumes an image object holds width*height pixels (C25) and bounds sides by 1024; storage internal to standard containers is not bounded here.'))

p('C06', 'Computing and comparing features never divides by zero',
  'For every glyph image with sides from 1 to 1024, no feature computation divides by a size, count, coordinate or span that can be zero. The only exception is a share of the total number of pixels found in zones, where the total depends on the pixels themselves. Comparing two values of a feature, whatever they are (empty lists, shares of 0), and reading the size of an image never divide by zero either.',
  ['inputs'], 'every width and height from 1 to 1024, every pixel content, all pairs of feature values',
  'Only particular degenerate sizes (one row, one column, very flat glyphs) or values (no zones, shares of 0) make a divisor vanish; the tests contain none of them.',
  [S+'strategies/', S+'loader2/image_io.cpp'], [('each integer division in the extractors', S+'strategies/'), ('comparison of shares', S+'strategies/proportionality_zone.cpp')],
  claim=(PROVER+'; dominating tests for comparisons', 'proof', TRUST+'Sums of two shares are taken not to wrap around. Bounds sides by 1024; a total of values read from a work buffer is listed in the evidence as not decided.'))

p('C25', 'Copying, cutting and rotating images keeps every pixel in its place',
  'For images with sides up to 32768: a copy of an image has the same size and the same pixels; a section holds exactly the pixels of the requested rectangle, row by row; a 90-degree rotation has the sides swapped and pixel (column c, row r) of the result is pixel (column width-1-r, row c) of the source; every image handed out owns width*height pixels, all of them written. These operations, comparing two images and reading or printing one never access memory outside the pixels, and two images compare equal only after all their pixels were compared.',
  ['inputs'], 'every width and height up to 32768, every rectangle inside the image, every pixel content',
  'Tests rotate and cut one or two small images; swapped sides, a wrong stride or a short copy shows only at other shapes.',
  [S+'image/image.cpp', S+'image/image.hpp', S+'loader2/image_io.cpp'],
  [('copy, section, rotate90, comparison', S+'image/image.cpp'), ('extraction operator', S+'loader2/image_io.cpp')],
  claim=(PROVER+' with a map of which source pixel each written pixel holds', 'proof', TRUST+'Assumes the rectangle asked of section() lies inside the image (callers: C04).'))

p('C07', "A glyph's features never depend on the glyphs computed before it",
  'However many glyphs were computed before with the same work buffers, and in whatever order their features were asked for, every feature value computed for a glyph is a function of that glyph only: each intermediate result that is taken over was computed for the same upright and rotated image, each work buffer word that is read was cleared for this glyph, and every use of the cached results is preceded by a reset since they were filled for another glyph.',
  ['histories'], 'every sequence of glyphs, sizes and features computed with one set of contexts',
  'Tests compute one glyph at a time with fresh contexts; a missing reset or a buffer that is not cleared gives wrong values only for later glyphs, and only for some earlier ones.',
  [S+'strategies/utils/context.hpp', S+'strategies/utils/count_zone.hpp', S+'strategies/utils/horizontal_direction.hpp', S+'strategies/utils/horizontal_gravity.hpp', S+'loader2/datas_loader.hpp', S+'ocr2/compute_image.hpp', 'main/'],
  [('the computed flag and reset()', S+'strategies/utils/context.hpp'), ('the zeroed work buffers', S+'strategies/utils/count_zone.hpp'), ('the reset before each glyph', S+'loader2/datas_loader.hpp')],
  claim=('written-before-read dataflow over each extractor, plus a reset typestate over its callers', 'proof', TRUST+'Which storage is used (address and capacity of an owned buffer) may depend on earlier glyphs; its contents may not. Callees do not write through const references.'))

p('C13', 'The shared image buffer always holds the current image and its rotation',
  'However often the shared image context is asked for an image and in whatever order of sizes, the image it hands out has the size asked for and views the start of a buffer it owns that has room for the image and its rotation; the rotated image has the sides swapped, lies behind the image inside the same buffer, and leaves the image as it was. The context releases its buffer exactly once, the views never release it, and an allocation or a maker that throws leaves a context that can be used again.',
  ['histories', 'fault_sequences'], 'every sequence of image sizes, every point at which the maker or an allocation throws',
  'Tests never use the context at all; a stale capacity or a view left behind after the buffer was replaced depends on the order of sizes.',
  [S+'ocr2/image_context.hpp', S+'image/image.hpp'], [('reserve(), img(), img90()', S+'ocr2/image_context.hpp')],
  claim=('class invariant proved over every way through the methods, with a resource typestate for its owner and views', 'proof', TRUST+'Assumes image sides between 1 and 32768, and that a maker writes width*height pixels and does not touch the context.'))

p('C23', 'UTF-8 decoding never leaves the string and delivers whole characters',
  'For every zero-terminated string of any bytes, the UTF-8 iterators read no byte behind the terminating zero and never stand behind it after delivering a character; every well-formed character of one to four bytes is delivered whole (its bytes, or its code point) and the iterator moves exactly past it, and what the byte iterator delivers is always exactly the bytes it passed; a character cut off by the end of the string ends the text. The dictionary and the word search step an iterator only from a character, never from the end.',
  ['inputs'], 'every byte sequence, well-formed or not, in words and in recognition candidates',
  'Tests use a few well-formed words; a string cut in the middle of a character or an empty candidate reads past its end without any visible effect.',
  [S+'utils/utf.hpp', S+'spell/dictionary.cpp', S+'spell/word_disambiguouser.hpp'],
  [('operator++ of both iterators', S+'utils/utf.hpp'), ('the loops over the characters of a word', S+'spell/')],
  claim=('abstract interpretation over sets of byte values (trace-partitioned, every bit a function of one byte), plus a proof at each use', 'proof', TRUST+'Assumes the strings given to an iterator end with a zero byte.'))

p('C21', 'No hidden state: calls never remember, const arguments never change',
  'No library function or tool keeps anything between calls in static or thread storage, depends on a clock, the environment or a C function with hidden state (a tool may time itself), and no function changes an object it takes as const (a const reference, a pointer to const, or a const method), including the pixels of a const image and the elements of a const container. Calls on different objects therefore never influence each other, in any order and on any thread, and a repeated call gives the same result.',
  ['histories', 'schedules'], 'every order and interleaving of calls on any objects',
  'Tests make single calls in one thread; state kept between calls shows only with particular earlier calls or threads.',
  [S, 'main/'], [('free of static state by convention', S), ('const references throughout', S+'strategies/')],
  claim=('effect analysis over the compiled source: writable globals, stateful callees, writes through const', 'proof', TRUST+'Pointers stored inside a const object are followed only for image pixels and elements of standard containers. Assumes the standard library respects its own const references.'))
p('C10', 'Every comparison handed to a standard algorithm is a genuine order',
  'Every comparison function the library and tools hand to a sorting, merging or maximum algorithm or to an ordered container is a strict weak order for all elements (nothing before itself, no two elements each before the other, transitive, "neither before the other" transitive too); every predicate for removing or finding duplicates is an equivalence; the predicate of a binary search splits its range in one place; image_compare answers oppositely for swapped images, answers 0 only for images of equal width, height and pixels, and agrees with Image ==; and no comparison walks two ranges of different lengths together. Otherwise std::sort and std::map may read outside their range, lose elements or never end.',
  ['inputs'], 'all triples of elements, with any relation between the fields compared',
  'A comparison that is no order misbehaves only for particular triples of elements, and std::sort only notices with enough elements.',
  ['src/ppocr/ocr2/', 'src/ppocr/loader2/', 'src/ppocr/utils/', 'main/'], [('comparators of candidates', S+'ocr2/sort_probabilities.hpp'), ('order of views', S+'ocr2/glyphs.hpp'), ('order of images', S+'utils/image_compare.cpp')],
  claim=('comparators interpreted over symbolic keys into sign tables, decided on all arrangements of three elements', 'proof', TRUST+'Scores are assumed not to be NaN; std::string, std::vector and arithmetic comparisons are trusted. The predicate of trie insertion (a composite of length and character) is not decided. Comparators with loops of their own are listed as not decided in the evidence.'))
p('C11', 'Ranges are searched and cleared of duplicates only in matching order',
  'Wherever the library or a tool removes or looks for neighbouring duplicates or does a binary search, the range was sorted before on every way there and not changed since, by an order that brings equal elements together, or is the order the search assumes; members searched by a class are sorted by its constructors with the same key. Candidates with a score are always ordered best first, so that the first of several equal candidates, the one kept, is the best. The identity of a glyph\'s views (get_views_indexes_ordered) is stored under the glyph\'s own number: two glyphs have the same id exactly if they have the same views.',
  ['inputs', 'histories'], 'all contents of the ranges, all paths to the search or duplicate removal',
  'Small test data is often already sorted; an unsorted range loses candidates or keeps duplicates only for particular contents.',
  ['src/ppocr/ocr2/', 'src/ppocr/spell/', 'main/'], [('candidates of a box', S+'ocr2/compute_image.hpp'), ('duplicate glyphs', 'main/normalize_glyphs.cpp'), ('words of a dictionary', S+'spell/dictionary.cpp')],
  claim=('sortedness typestate over the control flow graph, with the orders of sort and search compared as sign tables', 'proof', TRUST+'The views inside a glyph file are taken to be in the order normalize_glyphs wrote them, and the nodes of a trie in insertion order. Elements changed through iterators are only noticed where the changed field is a key of the order.'))

p('C08', 'What a writer puts into a file is what the matching reader takes out again',
  'For every pair of stream writer and reader (index, bounds, image, view, glyph and glyph list, dictionary, and the feature tables that write_datas writes and the text extractors read), reading the written text back with the matching reader into a fresh object succeeds and gives every field, element and pixel the value that was written, for objects of every size: same order, same separators, same counts, no field of the object left unwritten, no value read into a type too narrow for it. The word and font reader ocr2::Glyphs takes the same file apart in the same order as it was written.',
  ['inputs', 'histories'], 'objects of any number of elements, any integer and pixel values',
  'Tests round-trip one small object; empty lists, values at the end of a record and counts that are skipped show only with other contents.',
  [S+'loader2/', S+'box_char/box.cpp', S+'spell/dictionary.cpp', S+'defined_loader.hpp', S+'strategies/alternations.hpp', S+'ocr2/glyphs.cpp', 'main/'], [('feature tables', S+'defined_loader.hpp'), ('glyph files', S+'loader2/glyphs_loader.cpp'), ('image files of glyphs', S+'loader2/image_io.cpp'), ('dictionary files', S+'spell/dictionary.cpp'), ('words of glyphs', S+'ocr2/glyphs.cpp')],
  claim=('writer and reader walked into symbolic stream skeletons (loops as one generic turn), matched side by side with value identity', 'proof', TRUST+'Decides the way on which the stream stays good. Words and font names are taken to be non-empty and without whitespace, no pixel to be a line feed, containers to have less than 2^32 elements, the tables of one object to have equally many rows; tests of a reader that depend on more than the values read are listed as assumed in the evidence. Of ocr2::Glyphs only the order is decided, not where each value is kept.'))

p('C20', 'A file that cannot be read, or does not fit the others, is never ignored',
  'Whenever one of the tools opens a text, glyph, feature or dictionary file and the file cannot be opened or reading stops before its end (malformed content, read error), the tool does not end successfully in silence: it throws, ends with a status other than 0, or writes a message to the error stream because of it. The reader of the feature tables never returns normally after a value could not be read. The text extractors go on only when there are as many glyphs as rows of features.',
  ['inputs', 'fault_sequences'], 'every file content and every way a stream may fail at any read',
  'Tests feed readable, well-formed files; a read error, a directory or a malformed tail gives a shorter result that looks like a good one.',
  ['main/', S+'utils/read_file.hpp', S+'defined_loader.hpp'], [('checked reading', S+'utils/read_file.hpp'), ('words files', 'main/make_trie_dictionary.cpp'), ('glyph files', 'main/normalize_glyphs.cpp'), ('feature computation', 'main/write_datas.cpp'), ('feature tables', S+'defined_loader.hpp')],
  claim=('path-sensitive typestate of every input stream with its exact state bits, over the inlined programs', 'proof', TRUST+'Covers the tools built by Jamroot. Image files are covered by C02. A last record cut short at the very end of a glyph or dictionary file ends the file for its reader and is not told apart.'))

p('C09', 'The right text is recognised for every image of known glyphs',
  'For every image made of glyphs the data files describe, the recognised text is the text the image shows.',
  ['inputs'], 'all images and data files', 'Tests recognise a few glyphs.',
  ['main/', S+'ocr2/'], [('recognition', S+'ocr2/compute_image.hpp')],
  na='No static oracle: which text an image shows, and how far a score may be off, is not written anywhere in the source. The structural parts are C04, C05, C07, C08, C10 and C11.')
p('C12', 'The words handed out for glyphs lie inside the word table',
  'Every word that ocr2::Glyphs hands out for an index is the word stored for that glyph, read inside the packed table.',
  ['inputs', 'histories'], 'all glyph lists and indexes', 'Tests have a few short words.',
  [S+'ocr2/glyphs.cpp'], [('packed words', S+'ocr2/glyphs.cpp')],
  na='The lengths and offsets are themselves values stored in a heap table filled by another function; the engine has no relation between the contents of all elements of a container. What writer and reader of that table exchange is C08.')
p('C15', 'Comparing features is symmetric, reflexive and stays within 0 to 100',
  'Comparing two values of one feature gives the same in both directions, 100 for equal ones, and never leaves 0 to 100.',
  ['inputs'], 'all pairs of feature values', 'Tests compare a handful of values.',
  [S+'strategies/relationship/', S+'strategies/'], [('relationships', S+'strategies/relationship/')],
  na='Needs numeric bounds of the stored feature values, which are quotients of counts by areas (non-linear), and that both tables hold equally long rows from outside; no sound static bound in reach.')
p('C16', 'Lines and filters keep exactly the candidates that belong',
  'Filtering by lines and by fonts removes a candidate only if its box contradicts the line or the font of its neighbours.',
  ['inputs'], 'all candidate lists', 'Tests filter few words.',
  ['main/', S+'ocr2/'], [('filter by lines', S+'ocr2/'), ('filter by fonts', S+'ocr2/')],
  na='The filters are heuristics: which candidate belongs is defined by the code alone, so there is nothing independent to decide it against.')
p('C17', 'The rate of unrecognised characters is the true share',
  'The rate that is printed is the number of unrecognised characters divided by the number of characters, and lies between 0 and 1.',
  ['inputs'], 'all texts', 'Tests print no rate.',
  ['main/'], [('rate', 'main/')],
  na='A numeric result of counts over whole container contents; needs a functional specification of the counting loop over elements, which the engine (bounds, typestate, skeletons) cannot express.')
p('C18', 'A dictionary word is found exactly when the candidates spell it',
  'The search for a word among candidates finds one if and only if some choice of candidates spells a word of the dictionary.',
  ['inputs'], 'all candidate lists and dictionaries', 'Tests try a few words.',
  [S+'spell/'], [('recursive search', S+'spell/')],
  na='Functional completeness of a recursive search over heap data; deciding it needs a proof by induction over the trie, not a static analysis in reach.')
p('C22', 'Walking the dictionary never leaves the table of its nodes',
  'Every walk over a flat dictionary, however it was made or read, stays inside its table of nodes.',
  ['inputs', 'histories'], 'all dictionaries and walks', 'Tests walk one small dictionary.',
  [S+'spell/dictionary.cpp'], [('flat nodes', S+'spell/dictionary.cpp')],
  na='The position of the children is a value stored in every node; needs an invariant over the contents of all elements of the table. That reading and writing agree is C08.')

p('C19', 'Every loop moves on: no input makes it go round for ever without progress',
  'On every way round every loop of the library and the tools something changes that a test of the loop on that way looks at, and a loop that reads ends once reading has failed (end of file, malformed content or read error); counted loops count towards their bound; a replacement in a text goes on behind what it put in and never searches for an empty text; no function calls itself with the very same arguments.',
  ['inputs', 'fault_sequences'], 'all values the tests of a loop can see, all states of the streams read in it',
  'A loop that stands still does so only for one kind of content (a malformed record, equal neighbours, an empty pattern), and a test that hits it does not fail but hangs.',
  ['src/ppocr/', 'main/'], [('reading of records', S+'loader2/glyphs_loader.cpp'), ('dictionary files', S+'spell/dictionary.cpp'), ('replacement of texts', S+'ocr2/replacement.hpp'), ('filters', S+'ocr2/filter_by_lines.cpp'), ('comments of image files', S+'image/image_from_file.cpp')],
  claim=('progress analysis: every acyclic way round every natural loop in SSA form, with memory and stream state', 'other', TRUST+'Shows that no way round a loop leaves the state seen by its tests unchanged; that what changes also reaches its end (a ranking) is shown for counted loops only. An inner loop that is passed without a turn is taken to have some turns. Const member functions and const references are taken not to change an object; sides are at least 1.'))
