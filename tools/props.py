"""The properties, one entry each; tools/gen.py writes properties.jsonl and
MANIFEST.json from this list."""
MC, RC, GC, MR = ('metaknowledge/mkCollection.py', 'metaknowledge/recordCollection.py', 'metaknowledge/grantCollection.py', 'metaknowledge/mkRecord.py')
GH, DF, FH, CI = ('metaknowledge/graphHelpers.py', 'metaknowledge/diffusion.py', 'metaknowledge/fileHandlers.py', 'metaknowledge/citation.py')
ENGINE = ('path-sensitive abstract interpretation of the syntax trees (values are symbolic terms, helpers interpreted in place, loops by one '
          'arbitrary iteration)')
P = []


def prop(pid, title, statement, over, text, why, files, mech, technique, level_note, na=None):
    P.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique,
                  level_note=level_note, na=na))


prop('C03', 'Collections behave as sets under every operator and element operation',
     'For any two collections of the same type, |, &, - and ^ return a new collection of that type holding exactly the records of the union, intersection, '
     'difference or symmetric difference, the in-place forms give the left operand that content, and adding, discarding, removing, popping, peeking, clearing, '
     'membership, iteration, equality and length act on exactly the records held (a missing record is reported by removal and pop, not by discard). '
     'An operand of another type is refused with NotImplemented and changes nothing. Neither operand of a plain operator, nor the right operand of an in-place '
     'one, is changed, and a result built when either operand is bad is itself bad and carries the errors of both.',
     ['inputs', 'histories'], 'all contents of both operands, all error states, every operator, in-place form and element operation, both collection types',
     'Tests combine a few fixed files; which record of an arbitrary pair of contents ends up in a result, and what an operator does to its operands and errors, '
     'is a statement about every pair of sets.',
     [MC, RC, GC], [('set operators and element operations', MC), ('collection constructors from an iterable', RC + ', ' + GC), ('RecordCollection addition', RC)],
     'static: ' + ENGINE + '; symbolic set expressions of the result compared with the set-theoretic function over all membership assignments',
     'Decides the record content as a set expression for every content at once; names and progress display are outside. Trusts that the built-in set behaves as '
     'documented.')

prop('C04', 'What a caller passes in is left as it was',
     'No public function or method changes a list, dictionary, set, graph, record or collection it is given as an argument, directly or through an alias, a copy '
     'that still shares the inner objects, or a helper. The only exceptions are the graph handed to the functions documented as working in place (dropping edges or '
     'nodes, merging into a target graph, adding diffusion counts, writing a tnet file).',
     ['inputs', 'histories'], 'every argument of every public function and method, on every path through it',
     'Tests look at results; whether a caller-owned object was changed on some path or for some option combination is a statement about all paths.',
     [RC, GH, DF, MC], [('argument handling of exports, networks and queries', RC + ', ' + MC), ('graph helpers', GH), ('diffusion counts', DF)],
     'static: ownership/effect analysis by ' + ENGINE + '; every in-place change is classified by the owner of the changed object',
     'Every in-place change on the explored paths is classified by owner. An object reached only through a value the analysis cannot follow (result of an outside '
     'library call) is taken to be fresh.')

prop('C05', 'Asking a question never changes the collection or record asked',
     'Queries, statistics, exports, derived collections and network builders leave the collection they are called on, its records, their fields and its errors '
     'exactly as they were, so any later question gets the same answer; the same holds for records, grants and citations. Only the documented in-place operations '
     '(add, remove, discard, pop, clear, split, in-place operators, and dropping bad, non-journal or identified records) change their object, and a record may remember '
     'values it has already computed.',
     ['inputs', 'histories'], 'every method that is not a documented in-place operation, every path, every order of calls',
     'A query that quietly changes a record or the collection shows only in a later, different call; tests use a fresh collection per test.',
     [RC, MC, MR, GC, CI], [('queries and exports of collections', RC + ', ' + MC), ('record field access', MR), ('citations', CI)],
     'static: ownership/effect analysis by ' + ENGINE,
     'As for C04, for the object a method is called on and everything it holds.')

prop('C22', 'Package-wide tables, defaults and process state are never changed',
     'No call changes the package-wide state later calls depend on: tag tables, handler registries, configuration values, class attributes and default argument values '
     'stay as they were loaded, and a package-wide name is rebound only to load a table that has not been loaded yet. Nor does a call change the state of the interpreter or process '
     '(working directory, warning filters, random seed, recursion limit), except the journal-page download documented to move to its target directory.',
     ['histories', 'inputs'], 'every function and method, every order of calls in one process',
     'Leaked state shows only in a second call with other data in the same process; each test starts from the same files.',
     ['metaknowledge/constants.py', FH, MR, 'metaknowledge/genders/nameGender.py', CI], [('tag tables and registries', FH), ('lazily loaded tables', 'metaknowledge/genders/nameGender.py, ' + CI)],
     'static: effect analysis by ' + ENGINE + '; in-place changes owned by module-level objects, classes or defaults are reported',
     'The command line and documentation programs, which own their process, are outside.')

prop('C27', 'Copies are equal and independent',
     'A copy of a collection or record equals the original (same records or fields, name, bad flag, errors and type), making it does not change the original, and afterwards adding, removing or '
     'recording errors in either one never shows in the other. The same holds for the state a record saves for copying and pickling: it contains everything but remembered values and shares no field data with the record. '
     'A collection made from others (an operator\'s result, a subcollection, the records of some years, a chunk) shares no container of records, types or errors with them either.',
     ['inputs', 'histories'], 'every collection and record class, every later sequence of changes to either object',
     'Sharing shows only when one of the two objects is changed later; tests copy and compare at once.',
     [MC, MR], [('Collection.copy', MC), ('Record.copy and saved state', MR)],
     'static: ' + ENGINE + '; attributes some method changes in place (computed) must be distinct objects in copy and original',
     'Covers the attributes the classes change in place; field values inside records are treated as immutable (C05 shows nothing changes them).')

prop('C20', 'Filters select exactly the documented records and no query leaves any out',
     'yearSplit selects the records whose year lies in the closed range; citeFilter, for each field option, exactly the records with at least one citation matching the key '
     'in that field (case-insensitively unless asked otherwise for the whole text), and with reverse exactly the others; localCitesOf exactly the records citing the given one; getCitations with a field exactly the citations with one of the given values in it (without values all that have the field; one value is the same as a list of it), and without a field all of them; badEntries, '
     'dropBadEntries, dropNonJournals, and the lookups, removals and tests by ID act on exactly the records they name; chunk and split put every record into exactly one chunk of at most the '
     'given size, and the citation filter of the networks keeps a citation exactly if none of the requested conditions (non-journal, anonymous, not in the collection, keyword, missing field) drops it. '
     'Statistics, exports and network builders visit every record and every value of the fields they use, whatever a record\'s bad flag, and hand out everything they gathered; '
     'an export with a row for every record (makeDict, forNLP, writeCSV, writeFile, writeBib) writes one for each.',
     ['inputs'], 'every collection, every option value, every combination of citations and fields',
     'A boundary, a case or a citation position that a sample file does not contain is not tested; which elements pass a filter is a statement about all of them.',
     [RC, MC], [('yearSplit, citeFilter, localCitesOf, dropNonJournals', RC), ('filterCites', RC), ('chunk, split, badEntries, lookups by ID', MC)],
     'static: selection guards of every result extracted by ' + ENGINE + ' and compared with the documented condition over all truth assignments (years over all order positions)',
     'A guard the analysis cannot name leaves that selection undecided (listed in the evidence); the values a statistic computes are outside.')

prop('C17', 'Pruning a graph keeps exactly the elements within the inclusive bounds',
     'dropEdges, dropNodesByDegree and dropNodesByCount remove from the graph exactly the edges or nodes whose weight, degree or count is below the minimum or above the maximum (an element '
     'equal to a bound stays, a bound left out bounds nothing, of parallel edges the one outside goes), and self loops exactly when dropSelfLoops is on; nothing else of the graph changes. The value compared is the attribute named by '
     'parameterName; the degree is the sum of those weights over the edges of the node, 1 for an edge without one, or the number of edges when useWeight is off. An element without the attribute raises '
     'a KeyError unless ignoreUnweighted / ignoreMissing / includeUnweighted asks otherwise, and then an ignored element stays.',
     ['inputs'], 'every graph, every pair of bounds including infinite ones, every weight, missing attributes, every option',
     'Tests prune two networks with one or two bounds; equality with a bound, negative bounds, missing attributes and option combinations are a statement about all graphs.',
     [GH], [('dropEdges, dropNodesByDegree, dropNodesByCount', GH)],
     'static: removal guards extracted by ' + ENGINE + ' and compared with the documented condition over all order positions of value and bounds; degree accumulation checked per edge case',
     'Weights are ordinary numbers. A removal guard the analysis cannot name leaves that function undecided (listed in the evidence).')
prop('C14', 'No call dies of an internal mistake in the package',
     'Whatever the arguments, no function of the package (the command line programs included) fails because of its own wording: every local name is bound on every path that reads it; every name, module attribute, '
     'method and graph operation that is used exists (graph operations in the installed networkx, standard library names in the running Python); every call of a package function or class fits its '
     'parameters; every message built with format or % has a value for each of its placeholders and an operation its pieces allow; only exception classes and instances are raised and caught; no number is divided by a count that is 0 when there is nothing to count (no records, no authors, no nodes); and a constructor '
     'sets, on every path, the attributes that other methods read from the object. A caller who provokes an error gets the documented exception, not a NameError, AttributeError, TypeError or UnboundLocalError raised by the code that was meant to report it.',
     ['inputs'], 'every function, every path through it - error and rare-option paths above all - and every call site',
     'These mistakes sit on the paths tests do not take: error messages, rare options, malformed records. A test finds one only by provoking exactly that path.',
     ['metaknowledge/mkRecord.py', 'metaknowledge/mkCollection.py', RC, GH, 'metaknowledge/citation.py', 'metaknowledge/fileHandlers.py', 'metaknowledge/diffusion.py', 'metaknowledge/bin/metaknowledgeCLI.py'],
     [('error branches of the parsers and validators', 'metaknowledge/fileHandlers.py'), ('option branches of the network builders', RC)],
     'static: path-sensitive definite assignment over the syntax tree; resolution of every name, attribute, call signature, format placeholder and raised class against the package, the installed networkx source and the standard library',
     'Attributes are checked on self, modules, classes, graphs and objects whose class the source shows; values of unknown class are not. A name read inside a try that catches the failure is not reported. '
     'The command line programs are analysed without exception edges. A division counts as guarded when it stands in a loop over data, under a test of what the divisor is made from, or in a try that catches it; lengths of parameters are the caller\'s business.')

prop('C15', 'Counts and weights are the number of occurrences',
     'A node count, edge weight or entry of a count dictionary that the package builds is exactly the number of occurrences met. In every network builder (networkOneMode, networkTwoMode, networkMultiMode, networkMultiLevel, '
     'networkCoAuthor, networkBibCoupling, networkCitation, networkCoCitation, networkCoInvestigator, diffusionGraph) and counting function (cooccurrenceCounts, rankedSeries, timeSeries, localCiteStats, rpys, diffusionCount) a counter goes from absent to 1 or from n to '
     'n + 1 each time an element or pair is met, exactly once per meeting; the first occurrence is counted like any other, an existing counter is never reset; each unordered pair of a record\'s values is drawn once, and a record with one value still counts its node; counts and '
     'weights are kept when, and only when, nodeCount/count and edgeWeight/weighted ask for them. mergeGraphs gives what both graphs have the sum of their values and takes over the rest with its own attributes; '
     'diffusionAddCountsFromSource puts the count of every node that has one on that node, and 0 on the others.',
     ['inputs'], 'every path through every iteration of the counting loops, for every option setting',
     'A count is a property of all occurrences in a collection; tests look at totals of a few fixed files, mostly with the default options, and miss a second occurrence, an isolated node or a rare option counted wrong.',
     ['metaknowledge/mkCollection.py', RC, GH, 'metaknowledge/diffusion.py'],
     [('counting code of the mode networks', 'metaknowledge/mkCollection.py'), ('addToNetwork', RC), ('mergeGraphs', GH)],
     'static: path-sensitive abstract interpretation of the counting loops; every counter update is matched with the evidence of absence or the old value on its path, and counted per iteration',
     'The values themselves are not computed: only that each meeting changes the right counter by one. A key with several possible origins is accepted on the evidence of the failed read it handles. That the elements met are the right ones is C20 and C16.')

prop('C16', 'Graphs have the direction and kind that were asked for',
     'Every network builder returns a graph of the documented kind for every setting: directed exactly when directed is asked for (networkCitation, networkTwoMode, readGraph; diffusionGraph always), with parallel labelled edges '
     'exactly when an edge attribute or label is given, otherwise a simple graph. In networkCitation every edge links a record with a work that same record cites, running from record to cited work when recordToCite is on '
     'and from cited work to record when it is off, for every nodeType, weighted or not, and the existing edge is looked for in that same direction; networkCoCitation links cited works only with each other; networkTwoMode '
     'edges run from the first tag\'s value to the second\'s; diffusionGraph edges run from source to target; networkBibCoupling couples the records that cite a work.',
     ['inputs'], 'every option setting and every path on which a builder makes a graph or an edge',
     'Undirected views, symmetric fixtures and default options hide a swapped edge; the options multiply to far more settings than any test list covers.',
     [RC, 'metaknowledge/mkCollection.py', 'metaknowledge/diffusion.py', GH],
     [('addToNetwork', RC), ('networkTwoMode', 'metaknowledge/mkCollection.py'), ('diffusionGraph', 'metaknowledge/diffusion.py')],
     'static: path-sensitive abstract interpretation with origin tracking of edge endpoints (record, cited work, first tag, second tag, source, target) against the option values known on the path',
     'Endpoints whose origin is mixed on one path are recorded as undecided. Edges made by expandedCore between the several citations of one record have no documented direction and are not checked.')

prop('C28', 'Options mean what their documentation says',
     'Leaving an option out gives the behaviour its documentation states: for every documented parameter of every function of the package the default value in the signature is the documented default (a None standing in for a '
     'constant the body supplies counts as that constant). Giving an option has an effect: every documented parameter is read, on some path, before it is given another value. An option keeps its meaning when it is handed on: '
     'a function that calls another package function with a parameter of the same name does not leave that option to the called function\'s default, two options do not trade places, and a function that asks again by calling itself '
     'hands over all of its options; a list whose direction an option is documented to choose (greatestFirst) runs in that direction.',
     ['inputs'], 'every documented parameter of every function, and every call between package functions',
     'The options of the package multiply to more settings than tests can visit; most tests use the defaults of one setting, and none compares the defaults with the documentation.',
     ['metaknowledge/mkRecord.py', 'metaknowledge/mkCollection.py', RC, GH, 'metaknowledge/diffusion.py', 'metaknowledge/journalAbbreviations/backend.py', 'metaknowledge/bin/metaknowledgeCLI.py'],
     [('every signature with a Parameters section', RC)],
     'static: documentation of every parameter parsed and compared with the signature; backward liveness of parameters over the syntax tree; call-site binding across the package',
     'Defaults described in prose without a value are not compared. That an option that is read has the documented effect is the subject of the other properties.')

prop('C13', 'Files are closed, used as opened, and put where asked',
     'When a function of the package returns, every file it opened - text, csv, cache, downloaded data, any number of files of a split export - has been closed, on every path through it, so what was written is on disk. No file is used '
     'after it was closed; files opened for reading are not written and inputs are never opened for writing, and a file that is written holds only what was written now. What a writing function writes goes to the path its argument names; the name derived from the collection is used only when '
     'no name was given, and nothing is opened on the path where the caller asked for no file.',
     ['inputs'], 'every path to a normal return of every function that opens files',
     'A file left open on one path usually looks fine in a test because the interpreter closes it when it collects the handle; on the wrong path an option writes to the wrong place only for that option.',
     ['metaknowledge/mkCollection.py', RC, GH, 'metaknowledge/fileHandlers.py', 'metaknowledge/WOS/wosHandlers.py', 'metaknowledge/journalAbbreviations/backend.py'],
     [('writeCSV', RC), ('writeEdgeList, writeNodeAttributeFile, readGraph', GH), ('_createCache', 'metaknowledge/mkCollection.py')],
     'static: typestate (opened, closed) of file objects over the paths found by ' + ENGINE + '; the path terms of opens compared with the parameters',
     'Only normal returns are covered: when an exception leaves a function the handle is left to the interpreter. Files opened by third party code (networkx, dbm) are not tracked.')

prop('C26', 'Only what was asked for is written, deleted, fetched or run',
     'Using the package leaves everything else alone. Files are written, and directories made, only by the operations documented to write (the write functions, the exporting options, the cache and the journal and name data) '
     'and never on a path that was read as input; nothing is removed or renamed except an outdated cache file by the function that found it outdated; the network is used only by the functions documented to download; nothing is '
     'unpickled except a collection\'s cache file; no code or command made from data is run; importing the package has no such effect, and the working directory stays what it was. writeGraph with overwrite=False raises before it '
     'writes anything if any of its outputs exists.',
     ['inputs'], 'every call of every function of the package (documentation generators excluded)',
     'A test sees only the effects it looks for, in the places it looks; an extra write, a deleted input or a download on a rare path goes unnoticed.',
     ['metaknowledge/mkCollection.py', RC, GH, 'metaknowledge/journalAbbreviations/backend.py', 'metaknowledge/genders/nameGender.py', 'metaknowledge/bin/metaknowledgeCLI.py'],
     [('_loadFromCache', 'metaknowledge/mkCollection.py'), ('writeGraph', GH), ('updatej9DB', 'metaknowledge/journalAbbreviations/backend.py')],
     'static: effect inventory over every call site, closed over the callers of each function, against the operations documented to have the effect; path-sensitive check of overwrite protection',
     'Effects inside third party code are seen only at the call. The interactive console of the command line program is a documented feature.')

prop('C12', 'A directory cache stands for exactly what would be parsed again',
     'A RecordCollection or GrantCollection made with cached=True from a directory uses the stored collection only if the cache was written by the same metaknowledge version, for the same name and extension, and lists exactly the '
     'files that would be read now, each with the time stamp it has now; otherwise, including when the cache file is damaged, the files are parsed, nothing of the old cache shows in the result and no error is raised for it. '
     'With a fitting cache nothing is parsed again. The cache is written only when asked for, only once the collection is complete, under the path, files, name and extension it will be looked up with; each directory and extension has '
     'its own cache, and cache files are never read as input.',
     ['histories', 'inputs'], 'every sequence of creating, changing and removing files and constructing cached collections in a directory; any content of the cache file',
     'A test tries one directory and one change; whether any other change goes unnoticed, or any other damage escapes as an error, needs the comparison paths to be followed.',
     ['metaknowledge/mkCollection.py', RC, 'metaknowledge/grantCollection.py'],
     [('_loadFromCache', 'metaknowledge/mkCollection.py'), ('_createCache', 'metaknowledge/mkCollection.py')],
     'static: path-sensitive symbolic execution of cache reader, writer and constructors; every key the writer stores must be compared with the same present value on every accepting path',
     'Two changes of a file within one time stamp, and files changed between being parsed and being stamped, are not seen by the design of the cache.')

prop('C01', 'Malformed input is contained and reported',
     'No content of a file, however damaged or truncated and in whatever encoding, makes a registered detector or parser raise: a detector answers yes or no (only the last one raises UnknownFile), and a parser returns the records it could read together '
     'with an error that is not None whenever it ran into undecodable text, an unparsable record, line or field, or the end of the file before its end. Record and grant constructors given damaged text make a bad record or raise their format\'s own '
     'Bad... error, nothing else. RecordCollection and GrantCollection turn an unrecognised file into BadInputFile (or skip it in a directory read without extension), keep the records of a damaged file, are marked bad and list the error under the file.',
     ['inputs'], 'every content of every input file and every string given to a record or grant constructor',
     'The damaged files in a test suite are a handful; the exceptions that can leave a parser depend on where in the file the damage lies.',
     ['metaknowledge/WOS/wosHandlers.py', 'metaknowledge/WOS/recordWOS.py', 'metaknowledge/medline/medlineHandlers.py', 'metaknowledge/proquest/proQuestHandlers.py', 'metaknowledge/scopus/scopusHandlers.py',
      'metaknowledge/grants/baseGrant.py', 'metaknowledge/grants/nsfGrant.py', RC, 'metaknowledge/grantCollection.py'],
     [('wosParser', 'metaknowledge/WOS/wosHandlers.py'), ('proQuestParser', 'metaknowledge/proquest/proQuestHandlers.py'), ('recordParser', 'metaknowledge/WOS/recordWOS.py')],
     'static: exception-escape analysis; every operation that content can make fail (next, decoding, csv, xml, int, lookups, pops) raises on a forked path of a path-sensitive execution of detectors, parsers and constructors',
     'Operations outside the list of fallible ones (for example methods of third party objects) are taken not to raise; string indexing and list indexing by constants are not followed.')

prop('C08', 'The bad flag and the error say the same thing',
     'When a record, grant or citation has been built, bad is True exactly if error holds an exception, and every problem met while building it (damaged text, '
     'missing id, incomplete or unreadable citation) leaves it bad with that kind of error, and an exception met on the way is itself the error kept; a record or grant that is not bad has an id taken from its content. Operations that change the flag '
     'later (dropping bad entries, clearing, updating one grant from another) change flag and errors together, and a grant updated from a bad grant becomes bad with its error.',
     ['inputs', 'fault_sequences'], 'every constructor and every method that sets the flag or the error, on every path',
     'Which of the many failure paths of a constructor sets which flag is a matter of every damaged input, while tests hold two damaged files.',
     [MR, 'metaknowledge/WOS/recordWOS.py', 'metaknowledge/medline/recordMedline.py', 'metaknowledge/proquest/recordProQuest.py', 'metaknowledge/scopus/recordScopus.py', CI,
      'metaknowledge/grants/baseGrant.py', MC],
     [('record constructors', 'metaknowledge/WOS/recordWOS.py, metaknowledge/medline/recordMedline.py, metaknowledge/proquest/recordProQuest.py, metaknowledge/scopus/recordScopus.py'),
      ('grant constructors and update', 'metaknowledge/grants'), ('citation constructor', CI), ('dropBadEntries and clear', MC)],
     'static: path-sensitive typestate of the pair (bad, error) by ' + ENGINE,
     'A method call on a value known to be None ends the path. Whether a text counts as damaged (the regular expressions) is not judged. The errors of collections built from files are C01, of set operations C03.')

prop('C09', 'What could not be read is never written out as a record',
     'Every output form of a record (writeRecord, bytes, BibTeX) refuses a bad record with a bad-record error before producing any output and on every path, and never refuses a good record '
     'as bad. Exporting a collection to BibTeX leaves bad records out, whatever bad-record error they raise, and goes on with the records after them.',
     ['inputs', 'fault_sequences'], 'every output form of every record and grant class, good and bad, and the BibTeX export of every collection',
     'A bad record in the middle of a large export is the unusual case tests do not hold.',
     [MR, RC, 'metaknowledge/WOS/recordWOS.py', 'metaknowledge/medline/recordMedline.py', 'metaknowledge/scopus/recordScopus.py', 'metaknowledge/proquest/recordProQuest.py'],
     [('bytes and bibString', MR), ('writeRecord', 'metaknowledge/WOS/recordWOS.py, metaknowledge/medline/recordMedline.py, metaknowledge/scopus/recordScopus.py, metaknowledge/proquest/recordProQuest.py'), ('writeBib', RC)],
     'static: ' + ENGINE + ' once with the record bad and once with it good; the errors found are injected into the export loop',
     'Formats that cannot be written at all (ProQuest) refuse every record. writeFile stops with the error of the bad record, which the property allows.')

prop('C07', 'What a record is never changes and agrees with itself',
     'The id of a good record is the whole of its documented id field (records of different sources never share an id), and id, sourceFile and sourceLine give exactly what the constructor '
     'was handed. The hash of a good record or citation depends on its id alone, that of a bad record on its content and error (so different bad records stay apart), that of a collection on what it holds, and none '
     'on time, chance or identity in memory. Equality is symmetric, holds between two objects of a kind exactly when what their hashes are made of is the same, and leaves other types to '
     'the other operand; nothing but the constructors changes an id, a hash or a source position.',
     ['inputs', 'histories'], 'every record, grant, citation and collection class, all contents',
     'Sets and dictionaries of records silently lose or merge entries when hash, equality or id disagree for some pair of contents; tests compare a few ids.',
     [MR, CI, MC, 'metaknowledge/WOS/recordWOS.py', 'metaknowledge/medline/recordMedline.py', 'metaknowledge/proquest/recordProQuest.py', 'metaknowledge/scopus/recordScopus.py', 'metaknowledge/grants'],
     [('hash and equality', MR + ', ' + CI + ', ' + MC), ('ids of records and grants', 'metaknowledge/WOS/recordWOS.py, metaknowledge/medline/recordMedline.py, metaknowledge/proquest/recordProQuest.py, '
       'metaknowledge/scopus/recordScopus.py, metaknowledge/grants')],
     'static: ' + ENGINE + '; dependence of the symbolic hash, equality and id terms, and a search for every store to an identity attribute',
     'Collisions of the built-in string hash are outside. Grants without an id field of their own (CIHR, fallback, Medline and Scopus grants) are only checked for stability.')

prop('C24', 'Every way of asking a record for a field gives the same answer',
     'For any record and any tag or long name, [] gives the processed field if the record has it under that name, else the field under its other name (processed as that tag), else the special '
     'function of that name, else KeyError. A name is "in" the record exactly if [] gives a value; get gives what [] gives or the default, and with raw the unprocessed text of the field under '
     'either name; values and items (raw or not) and subDict agree with them for every tag and leave none out. What a record remembers after a lookup is stored only under the names it '
     'belongs to, so the order in which fields are asked for never matters.',
     ['inputs', 'histories'], 'every record class, every name (tag, long name, special or unknown), every order of lookups',
     'Remembered values make the answer depend on earlier calls; tests ask each field once, in one order.',
     [MR], [('field lookup and remembered values', MR)],
     'static: ' + ENGINE + '; each returned and remembered value is classified by source and tag and compared with the conditions of its path',
     'Takes the other-name tables to be mutual (C10 checks them) and what a tag function computes from a text as given.')

prop('C10', 'Every tag and every long name means one field, everywhere',
     'For each source, every tag has its one documented long name and its own processing function; no two tags share either, no table gives a tag or name twice, and the tables derived from each other (tag to name, '
     'name to tag, upper case, both ways, lists of known tags) hold the same pairs. tagToFull, normalizeToTag (any case), normalizeToName and isTagOrName answer for every tag and name by those tables and raise KeyError otherwise; '
     'each record class uses the tables of its own source, gives the text of an unknown tag back unchanged, and takes the common record fields from the documented tags of its source, never from themselves. '
     'Each tag function gives the documented kind of value, from all lines where the field can wrap, and month names and seasons give their number as an int.',
     ['inputs'], 'every tag, long name and letter case of every source, and all contents of a field',
     'There are about two hundred tags and tests ask for a few dozen; a swapped or forgotten entry shows only for that tag.',
     ['metaknowledge/WOS/tagProcessing', 'metaknowledge/medline/tagProcessing', 'metaknowledge/scopus/tagProcessing', 'metaknowledge/proquest/tagProcessing', 'metaknowledge/constants.py'],
     [('tag tables', 'metaknowledge/WOS/tagProcessing/funcDicts.py, metaknowledge/medline/tagProcessing/tagNames.py'), ('tag functions', 'metaknowledge/WOS/tagProcessing/tagFunctions.py'),
      ('common fields', 'metaknowledge/medline/tagProcessing/specialFunctions.py, metaknowledge/scopus/tagProcessing/specialFunctions.py')],
     'static: constant propagation of the module-level tables and of the lookup functions over every tag and name, against the documented tags; symbolic operation chains of the tag functions by ' + ENGINE,
     'Tables or functions that do not fold to constants are left undecided. The functions of the Medline tags AD and AUID and the parsing done by citations and grants are outside.')

prop('C02', 'Each file is read once, by the parser of its own kind',
     'Which parser reads a file depends on the file alone: the registered kinds are tried in order, the first whose detector says yes reads that file, once, and no other parser touches it; an unknown file is refused by the last entry; '
     'Each registry entry joins the record type, parser and detector of one source, and every source is registered. A detector says yes exactly when the file shows the documented signs of its kind in the lines (and, for grants, the name) it may look at. '
     'Reading a directory looks at every regular file whose name ends with the extension, except caches, and keeps everything read from each; the collection notes the type of everything read or given, and every element of an iterable given to it is checked and kept.',
     ['inputs'], 'every path, directory content and file content given to RecordCollection and GrantCollection',
     'A file read twice, passed over or read by the wrong parser shows only in a directory with the right mix of files and names.',
     ['metaknowledge/fileHandlers.py', RC, 'metaknowledge/grantCollection.py', 'metaknowledge/WOS/wosHandlers.py', 'metaknowledge/medline/medlineHandlers.py', 'metaknowledge/proquest/proQuestHandlers.py',
      'metaknowledge/scopus/scopusHandlers.py', 'metaknowledge/grants'],
     [('registries', 'metaknowledge/fileHandlers.py'), ('detectors', 'metaknowledge/WOS/wosHandlers.py, metaknowledge/medline/medlineHandlers.py, metaknowledge/proquest/proQuestHandlers.py, metaknowledge/scopus/scopusHandlers.py, metaknowledge/grants'),
      ('dispatch', RC + ', metaknowledge/grantCollection.py')],
     'static: the registries are read from the syntax tree and matched with what their parsers construct; detectors and constructors are followed by ' + ENGINE + ' with a typestate of every file (recognised, read, noted, kept)',
     'What a parser makes of the content is C01, C07 and C11; the grants of one person spread over several NSERC files are merged by a rule of their own that is not judged.')

prop('C23', 'What cannot be answered is refused',
     'A wrong argument leaves the function with the documented exception and without an answer: node types, key types, edge types and statistics that are not in the documented list, tags that are not strings (or unknown names where a tag is asked for), stemmers that cannot be called, things of the wrong type given to collections, records, grants, the journal database, the plotting and the diffusion functions, options that exclude each other, a record removed or popped that is not there, and bad records asked to be written. '
     'An exception that is built is raised, or handed on beside the answer; it is never dropped and never given as the answer itself. The exceptions of the package can be caught as the families they belong to (mkException, and TypeError for the type errors).',
     ['inputs'], 'every value of every checked parameter, in every combination with the other parameters',
     'Tests try one wrong value of some parameters in one call; a check that is skipped for one combination of options, tests the wrong name or is caught again on the way out is not seen.',
     ['metaknowledge/diffusion.py', MC, RC, 'metaknowledge/grantCollection.py', MR, GH, 'metaknowledge/mkExceptions.py', 'metaknowledge/genders/nameGender.py', 'metaknowledge/journalAbbreviations/backend.py', 'metaknowledge/contour/plotting.py',
      'metaknowledge/WOS', 'metaknowledge/medline', 'metaknowledge/scopus', 'metaknowledge/proquest', 'metaknowledge/grants'],
     [('argument checks', 'metaknowledge/diffusion.py, ' + MC + ', ' + RC + ', ' + GH), ('exception classes', 'metaknowledge/mkExceptions.py')],
     'static: ' + ENGINE + ' follows every path of every function that checks an argument and compares what the path found out about the argument with how it ends; a lint over every exception constructor',
     'Only the parameters whose accepted values are documented or checked are judged; what happens to a wrong value of a parameter that is never checked is not.')

prop('C11', 'What is written is in the format it is read in',
     'What the package writes, it reads: a record is written line by line in the layout its parser takes apart (tag, separator, value, one line end; further values and further lines of a value marked as continuations; the end mark of the record once and last; a Scopus row as the quoted fields in the order of the header, empty where there is none). '
     'A collection of one kind of record is written with the header its detector looks for, then every record exactly once on lines of its own, then the end mark its parser needs and nothing else, in the encoding its detector and parser read; a collection of several kinds gets none of these headers or marks. '
     'The parsers take tags, values and marks from the columns they are written to and answer no record whose end mark is missing; files that go through the csv module keep line ends as they are, and the graph files have the columns readGraph looks for, every node and edge once on a row of its own, with the two ends of an edge in their own columns (in a tnet file the node of the first of the two modes first).',
     ['inputs'], 'every path of the writers and parsers, whatever the record, the fields and their values',
     'Tests compare one written sample file; a line with a further value, a value of several lines, a collection of another kind or in another encoding is not written and read back.',
     [RC, 'metaknowledge/WOS', 'metaknowledge/medline', 'metaknowledge/scopus', 'metaknowledge/proquest', GH, MC],
     [('writeFile', RC), ('writeRecord', 'metaknowledge/WOS/recordWOS.py, metaknowledge/medline/recordMedline.py, metaknowledge/scopus/recordScopus.py'), ('recordParser', 'metaknowledge/WOS/recordWOS.py'), ('readGraph', GH)],
     'static: ' + ENGINE + ' builds the text each path of each writer puts out as a sequence of constants and fields and compares it with the layout of the format; the columns and marks the parsers use, encodings, csv files and column names are compared with the same layout',
     'The layout is compared, not the values: that a value survives (quotes inside a Scopus field, author lines without an author) is not decided.')

prop('C06', 'Showing progress never changes what is done',
     'Whether progress is shown (VERBOSE_MODE, the quiet and _progBar arguments) decides nothing but what is displayed: no answer, no exception, nothing kept, written, added or gone through depends on it, and building what the display shows changes nothing and uses nothing up; nothing else is printed by the library while progress is off. '
     'A display a function starts is ended on every way out of it, by return or exception, while one it was given is left to its owner; leaving a display hides no exception, a display that shows nothing starts no thread and writes nothing, and the thread of one that does is told to stop and waited for before the last words are written, and never keeps the process alive.',
     ['inputs', 'fault_sequences', 'schedules'], 'every function that shows progress, whichever way it is left',
     'Tests run with VERBOSE_MODE on a few inputs; that the quiet run takes the same decisions, and that a failing run leaves no thread that goes on writing to the terminal, is not tested.',
     ['metaknowledge/progressBar.py', MC, RC, GC, DF, GH],
     [('_ProgressBar', 'metaknowledge/progressBar.py'), ('dropEdges', GH), ('diffusionGraph', DF), ('RecordCollection.__init__', RC)],
     'static: taint analysis of every function over VERBOSE_MODE, progress arguments (inferred through the call graph) and display objects: no answer, exception, store, iteration or call outside the display may depend on them (data or control); typestate of the display object (started, ended on every exit) and ordering of stop, join and last words in the display class',
     'What is interpolated into the display is looked at for changes by known mutating methods only.')

prop('C21', 'Tables are rectangular',
     'Every table the library hands out as a dict of lists (getCitations, rankedSeries in pandas mode, forBurst, forNLP, makeDict, rpys, localCiteStats in pandas mode, diffusionCount with pandasFriendly) is rectangular: whatever the Records hold, each row that is added gives every column of the table exactly one value, also when a tag or value is missing or an exception is handled on the way; '
     'rows are reordered or dropped only in every column alike; columns whose names come from the caller or the Records (extraColumns, the tags found) are used once each, and a name that is also that of a column the table always has does not fill that column twice.',
     ['inputs'], 'every function that returns a table, every path through its rows',
     'Tests compare a few lengths on one collection; that no missing tag, empty year or repeated name makes one column longer than the others is not settled by them.',
     [RC, MC, MR, DF],
     [('RecordCollection.forNLP', RC), ('RecordCollection.makeDict', RC), ('diffusionCount', DF), ('CollectionWithIDs.rankedSeries', MC), ('_pandasPrep', MR)],
     'static: path-sensitive dataflow: for every iteration of every loop on every path the appends to each column are counted and the counts compared over the columns of the table they end up in; the names that columns are chosen by are followed to their source for repetition and clashes',
     'Columns filled by extend or a comprehension instead of row by row are not decided. Which values are put in the rows is not looked at.')

prop('C19', 'The command line does what its menus and questions say',
     'Every option of every menu of the command line does what its words say, whatever else is answered, and nothing else: the collection is written, or the network made, thinned out or written, by the function that is for it, to the collection or network at hand, with the tag, limit, file name, suffix and database the user was asked for, and the program goes on to a graph exactly when the option says so. '
     'A question is only left with an answer that fits it (a yes or a no, an option of the menu, a tag the Records have, a number, a name that is not empty), otherwise it is asked again; no file that exists is overwritten unless the user agreed, named it by --name, or was not to be asked; every command line option is looked at and off unless given; the files named are all read, and what is read, made, filtered and written is one and the same.',
     ['inputs', 'histories'], 'every option of every menu, every path through the questions',
     'Tests play a few fixed conversations; that every option, in every order and after every wrong answer, does what it says is not tried by them.',
     ['metaknowledge/bin/metaknowledgeCLI.py'],
     [('getWhatToDo', 'metaknowledge/bin/metaknowledgeCLI.py'), ('getNetwork', 'metaknowledge/bin/metaknowledgeCLI.py'), ('getThresholds', 'metaknowledge/bin/metaknowledgeCLI.py'), ('outputNetwork', 'metaknowledge/bin/metaknowledgeCLI.py'), ('getOutputName', 'metaknowledge/bin/metaknowledgeCLI.py')],
     'static: the menus are read off the source as tables of key and words; each function that shows one is analysed once per key (constant propagation of the choice, dataflow of the answers to the questions) and the calls on its paths compared with what the words of the entry ask for; path conditions of every answer of the question functions',
     'The words of a menu entry are matched by a list of terms; an entry with words not in the list is only checked for doing nothing that others do.')

# not applicable
prop('C30', 'Reading back what was written gives equal records',
     'Writing any collection with writeFile and reading the file again gives records with the same ids and, for every tag and every value, the same text.',
     ['inputs'], 'all records, all field texts',
     'Only the texts of a few files are tried.',
     [MC, MR], [('writeFile', MC), ('writeRecord', MR)], '', '',
     na='Equality of arbitrary texts after wrapping, splitting, joining, csv quoting and unquoting quantifies over string contents; no sound argument over the syntax bounds what a field may hold (a value with a line break, or one that looks like a tag, is not kept). The part that is structural (layout, headers, end marks, columns, encodings, order) is decided as C11.')
prop('C31', 'RPYS and rank numbers are the documented statistics',
     'rpys gives for every year the number of citations and the deviation from the five year median, and rankedSeries, localCiteStats and the percentile ranks give the documented numbers.',
     ['inputs'], 'all collections',
     'One collection with known numbers is compared.',
     [RC, MC], [('RecordCollection.rpys', RC), ('CollectionWithIDs.rankedSeries', MC)], '', '',
     na='Medians, ranks and fractions are arithmetic over run-time sequences of unbounded length; comparing the formula in the code with the documented one would be matching its text. That counters are exact is C15, that the tables are rectangular C21.')
prop('C32', 'Citation strings are taken apart correctly',
     'For every reference text of a source, author, year, journal, volume, page and DOI of the Citation are those the text names.',
     ['inputs'], 'all reference texts',
     'A few dozen references are tried.',
     [CI], [('Citation.__init__', CI)], '', '',
     na='What a free-text reference names is not defined by anything in the source; the regular expressions are the only definition there is, so there is no oracle to decide them against. That a reference that does not fit leaves a bad Citation with an error is part of C08.')
prop('C33', 'Gender counts are those of the authors',
     'genderStats and nameStringGender give the gender the name data has for the first name of each author.',
     ['inputs'], 'all names',
     'The tests use a few names.',
     ['metaknowledge/genders/nameGender.py'], [('nameStringGender', 'metaknowledge/genders/nameGender.py')], '', '',
     na='The answer depends on a table downloaded at run time and on what a first name is in free text. That a wrong name is refused is C23, that the download is only made where documented C26, that the table is not changed C22.')
prop('C34', 'Plots show the graph they are given',
     'quickVisual and graphDensityContourPlot draw every node and edge of the graph in its place.',
     ['inputs'], 'all graphs',
     'Pictures are not compared by the tests.',
     ['metaknowledge/contour/plotting.py'], [('quickVisual', 'metaknowledge/contour/plotting.py')], '', '',
     na='What is drawn is decided by matplotlib and by interpolation over run-time arrays. That a thing that is no graph is refused is C23, that the calls exist and fit C14.')
prop('C35', 'A network equals the one counted by hand over the whole collection',
     'For every collection and every setting the nodes, edges, weights and counts of each network builder are those of a direct count over all records.',
     ['inputs'], 'all collections',
     'Numbers of nodes and edges of one file are compared.',
     [MC, RC], [('networkCoCitation', RC), ('networkOneMode', MC)], '', '',
     na='Equality of two whole computations over unbounded collections needs an induction that no dataflow rule carries out. The steps it is made of are decided: each occurrence counted once (C15), right ends and direction (C16), the right citations let through and no record left out (C20).')
prop('C36', 'Every call ends, in time proportional to its input',
     'No parser, query or network builder loops for ever or takes more than a quadratic number of steps.',
     ['inputs'], 'all inputs',
     'Tests have small inputs.',
     [MC, FH], [('parsers', 'metaknowledge/WOS/wosHandlers.py')], '', '',
     na='The loops that are not over finite iterables (the while loops of the parsers and of the command line) end by what they read from a file or a person; bounding them needs ranking arguments over the contents of the input. The cost of regular expressions and of networkx is outside the source.')
