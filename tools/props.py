"""Source of properties.jsonl and MANIFEST.json (see tools/mkdocs.py)."""

PROPS = []


def prop(id, title, statement, over, text, why, files, mechanism,
         technique, note, observe_at=None, state=None, hook=None, design=""):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over,
                      text=text, why=why, files=files, mechanism=mechanism,
                      technique=technique, note=note,
                      observe_at=observe_at or [], state=state or [],
                      hook=hook, design=design))


E2E = ("Real IndexBuilderMain and ServerMain, built from the current tree, "
       "asked over HTTP. ")
LEVEL = ("Searches generated cases, so it shows presence of violations and "
         "gives confidence, not proof, of absence. ")
QUERY_OBS = ["HTTP answer (JSON: status, resultsize, res) of ServerMain"]

prop("P01", "Basic graph pattern answers are exactly the matching solutions",
     "For every knowledge base and every supported query made of connected "
     "triple patterns, the rows returned by the server are, as a bag, exactly "
     "the assignments of terms to variables under which all patterns are "
     "triples of the knowledge base (each duplicate triple counting once). "
     "The answer does not depend on the order of the patterns, on the names "
     "of the variables or on which constants are used.",
     ["inputs", "programs"],
     "all knowledge bases x all connected sets of triple patterns (constants "
     "and variables in all positions, repeated variables, cycles, shared "
     "predicates, big relations spanning several blocks)",
     "The unit tests compute a handful of hand written joins and scans on "
     "fixed tables of fewer than ten rows and pin a few plans as text; no test "
     "evaluates a whole query, and none covers the choice of permutation, join "
     "columns, join algorithm (zipper, galloping, hash, two-column, "
     "multi-column, dummy scan) over arbitrary data.",
     ["src/engine/QueryPlanner.cpp", "src/engine/Join.cpp",
      "src/engine/Engine.h", "src/engine/IndexScan.cpp",
      "src/engine/TwoColumnJoin.cpp", "src/engine/MultiColumnJoin.cpp",
      "src/index/Index.cpp", "src/index/IndexMetaData.h"],
     [{"name": "join order enumeration and join columns",
       "where": "src/engine/QueryPlanner.cpp fillPlanTable, "
                "createJoinCandidates"},
      {"name": "join kernels", "where": "src/engine/Engine.h join; "
                                        "src/engine/Join.cpp doGallopInnerJoin"},
      {"name": "permutation scans over blocks",
       "where": "src/index/Index.h scan, IndexMetaData getRmd"}],
     "generated knowledge bases and queries against a reference evaluator",
     E2E + "Oracle: independent evaluator over the triple set in "
     "lib/vmodel.py (bag comparison). " + LEVEL,
     QUERY_OBS, design="""Generated: knowledge bases of 5-80 triples (few predicates and
entities so that joins and cycles occur; integers, decimals, dates, strings,
language tags) and 30 queries each, grown along existing triples so that most
answers are non-empty; one case in 25 has 3,000-30,000 triples with frequent
values and small relations, above the thresholds for blocks (10,000 distinct
left sides), and galloping joins (ratio 1,000). Oracle: bag equality with the
reference evaluator. Bounds: 6 triple patterns, 20,000 rows. Tests cannot reach
it because they never run a whole query. Patterns with a variable predicate
are not generated for knowledge bases with language tags (known finding).
Cost: about 20 s.""")

prop("P02", "FILTER keeps exactly the solutions that satisfy the condition",
     "For every knowledge base and every supported filter (comparison of a "
     "variable with a variable, literal, IRI, number or date; language; "
     "regular expression; prefix, also as a disjunction), the answer consists "
     "of exactly the unfiltered solutions that satisfy the condition. This "
     "holds wherever the filter stands in its group, for any combination of "
     "filters, and for constants that do not occur in the knowledge base.",
     ["inputs", "programs"],
     "all knowledge bases x all graph patterns x all supported filter "
     "conditions with present and absent constants",
     "Filter tests run the filter operation on fixed id tables; none covers "
     "the translation of constants into id ranges, the value encoding of "
     "numbers and dates, binary search on sorted inputs, or where the planner "
     "applies a filter.",
     ["src/engine/Filter.cpp", "src/engine/QueryPlanner.cpp",
      "src/index/Vocabulary.cpp", "src/index/StringSortComparator.h",
      "src/util/Conversions.h", "src/parser/SparqlParser.cpp"],
     [{"name": "range and comparison evaluation",
       "where": "src/engine/Filter.cpp computeFilterFixedValue"},
      {"name": "value to index word conversion",
       "where": "src/util/Conversions.h convertValueLiteralToIndexWord"},
      {"name": "bounds of constants", "where": "src/index/Vocabulary.h "
       "lower_bound, upper_bound, prefix_range"},
      {"name": "placement of filters",
       "where": "src/engine/QueryPlanner.cpp applyFiltersIfPossible"}],
     "generated filters, also metamorphic negation, against a reference "
     "evaluator",
     E2E + "Oracle: independent evaluator of the documented filter semantics "
     "(values by number, date or collation; language tag; ECMAScript search "
     "on the stored form). Comparisons between numerically equal values of "
     "different types are not generated. " + LEVEL,
     QUERY_OBS, design="""Generated: conditions derived from the values in the unfiltered
answer (equal, neighbouring and absent constants; all six operators; variable
against variable; numbers, dates, strings, IRIs; languages; regular
expressions; one to three prefixes), one or two filters at any position.
Oracle: the reference evaluator's solutions that satisfy the condition. Cost:
about 30 s.""")

prop("P03", "OPTIONAL, UNION, MINUS, VALUES, BIND and sub-queries compose",
     "For every knowledge base, every supported group pattern composed of "
     "OPTIONAL, UNION, MINUS, VALUES, BIND and sub-queries (nested, in any "
     "order, sharing one or several variables) returns exactly the bag of "
     "solutions that the SPARQL algebra defines. Unbound variables are "
     "reported as unbound and never as some other value.",
     ["inputs", "programs"],
     "all knowledge bases x all connected group patterns of bounded nesting "
     "over the listed constructs",
     "The tests of these operations use single hand written tables per "
     "operation; their composition, the planning of nested groups, the "
     "treatment of unbound values by a following operation and result types "
     "of mixed columns are never executed.",
     ["src/engine/OptionalJoin.cpp", "src/engine/Union.cpp",
      "src/engine/Minus.cpp", "src/engine/Values.cpp", "src/engine/Bind.cpp",
      "src/engine/MultiColumnJoin.cpp", "src/engine/QueryPlanner.cpp",
      "src/parser/SparqlParser.cpp"],
     [{"name": "planning of nested groups",
       "where": "src/engine/QueryPlanner.cpp optimize, merge, "
                "createJoinCandidates"},
      {"name": "left join kernel",
       "where": "src/engine/OptionalJoin.cpp optionalJoin"},
      {"name": "anti join kernel", "where": "src/engine/Minus.cpp computeMinus"},
      {"name": "column mapping of unions",
       "where": "src/engine/Union.cpp computeUnion"}],
     "generated nested group patterns against a reference evaluator",
     E2E + "Oracle: bag semantics of the SPARQL algebra in lib/vmodel.py. "
     "Possibly unbound variables are not used as join variables and not in "
     "filters. " + LEVEL,
     QUERY_OBS, design="""Generated: a basic graph pattern extended by one to three of
OPTIONAL, UNION, MINUS, VALUES, BIND, sub-query, more triples (nesting depth
2), attached to certainly bound variables, with one to several shared
variables. Oracle: bag equality with the SPARQL algebra. Not generated:
joins on possibly unbound variables (the engine compares ids), joins on
integers bound by BIND. Cost: about 20 s.""")

prop("P04", "GROUP BY, aggregates and HAVING compute the groups' true values",
     "For every knowledge base and every supported grouping (no, one or "
     "several grouping variables, also over unbound values), the answer has "
     "exactly one row per group that satisfies all HAVING clauses. COUNT, "
     "SUM, AVG, MIN, MAX, SAMPLE and GROUP_CONCAT, with and without DISTINCT, "
     "have the value that the members of the group define, also when the "
     "grouped query is a sub-query that is joined or grouped again.",
     ["inputs", "programs"],
     "all knowledge bases x all graph patterns x all choices of grouping "
     "variables, aggregates, HAVING clauses and outer queries",
     "The unit test groups one hand written table with each aggregate; group "
     "boundaries, single-row groups, DISTINCT within groups, unbound values, "
     "result types and the use of an aggregate by a following operation are "
     "not covered.",
     ["src/engine/GroupBy.cpp", "src/engine/QueryPlanner.cpp",
      "src/engine/Filter.cpp", "src/engine/ResultTable.h",
      "src/parser/SparqlParser.cpp"],
     [{"name": "group boundaries and aggregates",
       "where": "src/engine/GroupBy.cpp doGroupBy, processGroup"},
      {"name": "sort order required by grouping",
       "where": "src/engine/QueryPlanner.cpp getGroupByRow"},
      {"name": "HAVING", "where": "src/engine/QueryPlanner.cpp getHavingRow"}],
     "generated grouped queries against a reference evaluator",
     E2E + "Oracle: reference grouping in lib/vmodel.py; sums and averages "
     "are compared with the tolerance of 32 bit floats, SAMPLE with the set "
     "of members, GROUP_CONCAT as a bag of its parts. " + LEVEL,
     QUERY_OBS, design="""Generated: 30 grouped queries per knowledge base over basic graph
patterns and composed groups: zero to four grouping variables (possibly
unbound ones too), up to three aggregates, HAVING constants near the true
values, HAVING that compares two aggregates or a concatenation, DISTINCT, ORDER
BY an aggregate, one in three nested (joined with more triples, filtered outside,
or aggregated and grouped again). Oracle: reference grouping; rows are matched
to groups by a maximum matching because SAMPLE and sums have several right
values. Not generated: aggregates without GROUP BY on empty input (the engine
answers no row), ORDER BY on negative floating point values (known finding of
P06). Cost: about 40 s.""")

prop("P05", "Property paths connect exactly the pairs joined by a matching path",
     "For every knowledge base and every supported property path (sequence, "
     "alternative, inverse, one-or-more, zero-or-more, zero-or-one and bounded "
     "repetition, arbitrarily nested), a triple with that path returns exactly "
     "the pairs of nodes connected by a path that matches it. This holds for "
     "fixed and free ends, for the same variable at both ends, for cyclic "
     "graphs, and also when the path is joined with other patterns or stands "
     "in a nested group.",
     ["inputs", "programs"],
     "all directed labelled graphs (chains, cycles, self loops, trees) x all "
     "paths that cannot be empty as a whole x both ends free, fixed, equal or "
     "bound by other patterns",
     "The unit tests run the reachability kernel on a few fixed edge lists and "
     "parse a few paths; the translation of nested paths into joins and "
     "unions, the bound variants, and their combination with joins over "
     "arbitrary graphs is not tested.",
     ["src/engine/TransitivePath.cpp", "src/engine/QueryPlanner.cpp",
      "src/parser/PropertyPathParser.cpp", "src/parser/ParsedQuery.cpp"],
     [{"name": "reachability search, unbound and bound on one side",
       "where": "src/engine/TransitivePath.cpp computeTransitivePath, "
                "computeTransitivePathLeftBound, "
                "computeTransitivePathRightBound"},
      {"name": "translation of paths to graph patterns",
       "where": "src/engine/QueryPlanner.cpp seedFromPropertyPath, "
                "seedFromSequence, seedFromAlternative"},
      {"name": "path grammar",
       "where": "src/parser/PropertyPathParser.cpp pathElt, tokenize"}],
     "generated graphs and property paths against a reference evaluator",
     E2E + "Oracle: relational path algebra in lib/vmodel.py path_pairs. "
     + LEVEL, QUERY_OBS, design="""Generated: graphs of 2-14 nodes with chains, cycles and
chords, and 30 queries each with a random path of nesting depth up to 3, ends
free, constant or the same variable, one or both ends joined with further
triples (bound sides with payload columns), a second path, and the path inside
OPTIONAL, MINUS, UNION or next to a sub-query. Oracle: pairs of the path
algebra; bag comparison for sequences and alternatives, and set comparison
(queries with DISTINCT) when a part may be empty, because the standard counts
such duplicates differently from the engine. Paths that can be empty as a whole
and constants that are not in the knowledge base are rejected by the engine
with an error and are not generated. Bounds: 3,000 rows. Cost: about 40 s.""")

prop("P06", "ORDER BY, LIMIT, OFFSET and DISTINCT shape answers as asked",
     "For every query, the rows with ORDER BY come in an order that satisfies "
     "all sort keys with their directions, DISTINCT returns every row exactly "
     "once, and LIMIT and OFFSET return exactly the rows at those positions "
     "of such an ordered answer. Apart from order and slicing, the answer is "
     "that of the query without these modifiers.",
     ["inputs", "programs"],
     "all knowledge bases x queries x sort keys (one to three, ascending and "
     "descending, selected or not, strings, numbers, dates, aggregates) x "
     "limits and offsets from 0 to beyond the answer",
     "Sorting, limits and distinct interact with the sort order the planner "
     "believes inputs to have; unit tests check the kernels on fixed tables "
     "and never whole queries.",
     ["src/engine/OrderBy.cpp", "src/engine/Sort.cpp",
      "src/engine/Distinct.cpp", "src/engine/Engine.h",
      "src/engine/QueryPlanner.cpp", "src/engine/QueryExecutionTree.cpp",
      "src/parser/SparqlParser.cpp"],
     [{"name": "reported and assumed sort order",
       "where": "src/engine/Operation.h resultSortedOn; "
                "src/engine/QueryPlanner.cpp getOrderByRow, getDistinctRow"},
      {"name": "sorting and duplicate removal",
       "where": "src/engine/Engine.h sort, distinct; src/engine/OrderBy.cpp"},
      {"name": "slicing of the exported rows",
       "where": "src/engine/QueryExecutionTree.cpp writeResultToStream, "
                "src/engine/Server.cpp composeResponseJson"}],
     "generated queries with modifiers; order, slice and bag checked against "
     "a reference evaluator",
     E2E + "Oracle: reference evaluator plus a check that the returned "
     "sequence can be a slice of a correctly sorted answer. " + LEVEL,
     QUERY_OBS, design="""Generated: the patterns of P01 and P03 plus one to three sort
keys, LIMIT, OFFSET and DISTINCT; one case in 20 has up to 6,000 rows. Oracle:
the returned rows are a sub-bag of the reference answer of the right size, are
sorted by the keys, and the key values equal those of the reference slice (rows
with equal keys may come in any order). Columns mixing kinds of values have no
defined order and are not used as keys; equal numbers of different types
neither. Two known findings are excluded by construction (floating point
aggregates as keys, LIMIT in sub-queries). Cost: about 30 s.""")

prop("P07", "Predicate suggestions list every predicate of every entity",
     "For every knowledge base, the special has-predicate relation holds "
     "exactly the pairs of an entity and a predicate with which the entity "
     "occurs as subject, in every position and together with every other "
     "pattern. Grouping by the predicate with a count returns, for every "
     "predicate of the matching entities, the number of matching entities "
     "that have it.",
     ["inputs", "programs"],
     "all knowledge bases (with frequent and rare sets of predicates, entities "
     "without any, predicates that are themselves entities) x queries that use "
     "the relation in all positions, with all group patterns, filters, "
     "grouping, HAVING and ORDER BY",
     "Entities with the same set of predicates share one stored pattern and "
     "counting queries are rewritten to work on patterns; unit tests feed the "
     "kernels one hand written pattern table, but never check the tables the "
     "index builder writes nor the conditions of the rewriting.",
     ["src/engine/HasPredicateScan.cpp",
      "src/engine/CountAvailablePredicates.cpp",
      "src/engine/QueryPlanner.cpp", "src/index/Index.cpp",
      "src/index/Index.h"],
     [{"name": "patterns and their assignment to entities",
       "where": "src/index/Index.cpp createPatternsImpl, writing and reading"},
      {"name": "the four kinds of scans",
       "where": "src/engine/HasPredicateScan.cpp"},
      {"name": "rewriting of counting queries and the count itself",
       "where": "src/engine/QueryPlanner.cpp checkUsePatternTrick, "
                "getPatternTrickRow; src/engine/CountAvailablePredicates.cpp"}],
     "generated knowledge bases and queries against a reference evaluator that "
     "derives the relation from the triples",
     E2E + "Oracle: reference evaluator on the triples plus the derived pairs. "
     + LEVEL, QUERY_OBS, design="""Generated: a small knowledge base
plus 1-220 entities whose predicates come from a few common sets or are random,
some predicates being subjects and objects themselves; 30 queries each, half
using the relation like any other predicate (all positions, group patterns,
sub-queries, DISTINCT), half asking for the predicates of a set of entities,
with and without counts, filters on entity or predicate, HAVING and ORDER BY;
for half of the knowledge bases only 1-5 sets of predicates are kept as patterns
(hook), the other entities get lists.
Oracle: the reference evaluator on the triples plus the derived pairs. For
queries of triples only, a plain COUNT has to be the number of distinct entities
(what the engine's documentation promises for predicate suggestions, although
the same entity may occur in several rows); with other group patterns the number
of rows is accepted as well, because the rewriting then depends on the query.
Knowledge bases with language tags are left out, since the engine stores
internal predicates for them. Bounds: 5,000 rows. Cost: about 40 s.""")

prop("P09", "Cached and pinned results never change an answer",
     "For every sequence of requests to one server, made of queries (plain or "
     "asking to keep the result or its parts in the cache), clearing of the "
     "cache, statistics and failing queries, and for every cache size, each "
     "query gets the answer it would get from a freshly started server. No "
     "query is answered with an earlier query's result, and none fails because "
     "of what was asked before.",
     ["histories", "programs", "configurations"],
     "all histories of requests x all queries that share parts (same patterns "
     "with other variables, selections, filters, constants, modifiers) x all "
     "limits on the number and size of cache entries",
     "Whether two operations may share a cache entry depends on every field of "
     "every operation, and trouble shows only after the right earlier query; "
     "the tests check the cache container alone and never run two queries "
     "against one cache.",
     ["src/engine/Operation.cpp", "src/engine/Operation.h",
      "src/engine/QueryExecutionContext.h", "src/engine/IndexScan.cpp",
      "src/util/Cache.h", "src/util/ConcurrentCache.h",
      "src/engine/Server.cpp"],
     [{"name": "key of a cache entry",
       "where": "src/engine/Operation.cpp getCacheKey and asString of all "
                "operations"},
      {"name": "pinning and remembered scan sizes",
       "where": "src/engine/Operation.cpp getResult; src/engine/IndexScan.cpp "
                "computeSizeEstimate"},
      {"name": "eviction and clearing",
       "where": "src/util/Cache.h, src/util/ConcurrentCache.h, "
                "src/engine/Server.cpp process"}],
     "generated request histories against a reference evaluator",
     E2E + "Oracle: the reference evaluator, which knows no history. " + LEVEL,
     QUERY_OBS, state=[
         {"name": "query cache", "meaning": "results by key of the operation"},
         {"name": "pinned entries", "meaning": "results that are not evicted"},
         {"name": "pinned sizes", "meaning": "remembered sizes of scans"}],
     design="""Generated: a knowledge base, a pool of 3-14 queries of all kinds (patterns,
filters, group patterns, aggregates, modifiers, paths), more than half of them
variants of another one in the pool (variables renamed, columns swapped,
patterns reordered, another constant or filter, other modifiers, a part left
out, one detail of one operation changed), in a sixth of the cases queries for
the predicates of subjects, in a third sets of up to 32 queries that are equal but
for one detail (flags and alternatives of a filter, function, argument and separator of
an aggregate, order of a scan, shared variables of two patterns, sides of a union,
repetitions of a path, inline values, columns of DISTINCT and ORDER BY), mostly all
kept in the cache, and a history of 20-60 requests over the pool mixed with pinning, both
ways of clearing, statistics and failing queries, on a server with 1-1000 cache
entries and possibly no room at all, or limits of a few bytes up to the size of
the results (hook). Oracle: the reference evaluator per query.
Pinning into a cache without room is refused with an error by design; only the
later answers are checked then. A failing history is cut down to the steps that
matter. Cost: about 30 s.""")

prop("P10", "Concurrent clients get the same answers as a single client",
     "For every set of clients that send queries, pinning requests, cache "
     "clearing, statistics and failing queries at the same time, every query "
     "gets exactly the answer it would get alone. The server keeps running "
     "and never leaves a client without an answer.",
     ["schedules", "histories", "programs"],
     "all interleavings of requests of 2-8 clients against a server with 2-8 "
     "threads, including many clients asking for the same not yet computed "
     "result, and all cache sizes",
     "Results under computation are shared between threads, and several "
     "components keep state across queries; the tests exercise the cache with "
     "two threads at two chosen points and never run concurrent queries.",
     ["src/util/ConcurrentCache.h", "src/util/Cache.h",
      "src/util/Synchronized.h", "src/engine/Operation.cpp",
      "src/engine/Server.cpp", "src/engine/ResultTable.h",
      "src/parser/PropertyPathParser.cpp", "src/util/AllocatorWithLimit.h"],
     [{"name": "sharing of results under computation",
       "where": "src/util/ConcurrentCache.h computeOnceImpl, "
                "ResultInProgress"},
      {"name": "state shared between queries",
       "where": "src/engine/Server.cpp runAcceptLoop, process; static members "
                "in src/parser and src/engine"}],
     "generated rounds of simultaneous requests against a reference evaluator",
     E2E + "Oracle: the reference evaluator. Interleavings inside the server "
     "are sampled, not enumerated. " + LEVEL, QUERY_OBS,
     state=[
         {"name": "query cache", "meaning": "results, some of them in "
          "progress"},
         {"name": "pinned sizes", "meaning": "remembered sizes of scans"}],
     design="""Generated: knowledge base and query pool as for P09 (a third of the cases with
bigger knowledge bases and joins that take some milliseconds), then 15-30 rounds
in which 2-8 clients release their requests at a barrier; in 40 % of the rounds
all queries of the round are the same. In 40 % of the cases the cache has room for
a few hundred or thousand bytes only, so that results are evicted and cannot be
pinned while others use them. Oracle: every answer equals that of the
reference evaluator, no connection is dropped, the server lives. The schedule is
the operating system's, so a failing case is repeated up to 25 times per try
before it is judged, and is reported only if it fails again. Cost: about
45 s.""")

prop("P11", "Input documents are read as exactly the triples they state",
     "For every document in the supported part of Turtle or N-Triples, the "
     "index contains exactly the triples the document states, with every term "
     "in the value it denotes, whatever spelling is used for it (prefixes, "
     "predicate and object lists, nested blank nodes, comments, white space, "
     "quoting style, escape sequences, abbreviated numbers and booleans). No "
     "part of a document is silently skipped.",
     ["inputs"],
     "all graphs x all spellings of the graph in Turtle (stream and memory "
     "mapped), the faster Turtle dialect for ASCII prefixes, and N-Triples",
     "The parser tests check single rules on hand written snippets with one "
     "tokenizer; combinations of spellings, and what happens to the rest of "
     "the document after a construct, are never checked.",
     ["src/parser/TurtleParser.cpp", "src/parser/TurtleParser.h",
      "src/parser/Tokenizer.h", "src/parser/Tokenizer.cpp",
      "src/parser/NTriplesParser.cpp", "src/parser/RdfEscaping.cpp",
      "src/index/Index.cpp", "src/index/PrefixHeuristic.cpp"],
     [{"name": "recursive descent parser for Turtle",
       "where": "src/parser/TurtleParser.cpp"},
      {"name": "terms to vocabulary entries and back",
       "where": "src/index/Index.cpp tripleToInternalRepresentation, "
                "src/parser/RdfEscaping.cpp"}],
     "round trip of generated graphs through a randomised writer",
     E2E + "Oracle: the generated graph itself, compared up to names of blank "
     "nodes. " + LEVEL, QUERY_OBS,
     design="""Generated: graphs as trees (IRIs and strings with quotes, backslashes, newlines,
non-ASCII and control characters, language tags, numbers in all abbreviated and
typed forms, booleans, dates, blank nodes, nested property lists), and for each a
spelling chosen at random for every occurrence (prefixed or absolute names, `a`,
`;` and `,` lists, four quoting styles, character and numeric escapes, comments,
white space, directives in both styles, redefinition of prefixes). Every subject
has a mark by which one query returns all its triples. Oracle: the answer equals
the graph, blank nodes compared by colour refinement. Left out because they are
rejected with an error: collections, relative IRIs; in the fast dialect also
escapes and nested lists. Cost: about 60 s for 320 documents.""")

prop("P12", "Answers do not depend on format and build options of the index",
     "For every knowledge base and query, the answer is the same whichever "
     "input format, parser, batch size and size of partial vocabularies is "
     "chosen to build the index, whether prefixes are compressed, whether "
     "patterns are built, and which terms are kept on disk by choice of "
     "length, prefix or language. The order of strings (comparisons, ORDER "
     "BY) is exempt for terms kept on disk and for other locales.",
     ["inputs", "configurations", "programs"],
     "all knowledge bases x all combinations of build options x all supported "
     "queries, including look-ups of every single term",
     "The tests build indices with one configuration; the merge of partial "
     "vocabularies, the vocabulary on disk and the compressed vocabulary are "
     "tested apart from each other and with a few words.",
     ["src/index/VocabularyGeneratorImpl.h", "src/index/VocabularyGenerator.h",
      "src/index/Vocabulary.cpp", "src/index/ExternalVocabulary.cpp",
      "src/index/PrefixHeuristic.cpp", "src/index/Index.cpp",
      "src/index/IndexBuilderMain.cpp", "src/parser/TsvParser.cpp",
      "src/index/CompressedString.h"],
     [{"name": "merge of partial vocabularies and renumbering of triples",
       "where": "src/index/VocabularyGeneratorImpl.h mergeVocabulary, "
                "writeQueueWordsToIdVec; src/index/Index.cpp "
                "convertPartialToGlobalIds"},
      {"name": "vocabulary on disk",
       "where": "src/index/ExternalVocabulary.cpp, "
                "src/index/Vocabulary.cpp getId, shouldBeExternalized"},
      {"name": "prefix compression",
       "where": "src/index/PrefixHeuristic.cpp, src/index/CompressedString.h"}],
     "reference evaluator over randomly configured indices",
     E2E + "Oracle: the reference evaluator, which knows no configuration. "
     + LEVEL, QUERY_OBS,
     design="""Generated: knowledge base (with language tags, literals around the 1024 byte
limit for memory, long shared prefixes) and query pool as for P09, plus look-ups
of the triples by their terms; each is built three times with random input
format, on-disk literals, externalised prefixes, internal languages, uncompressed
vocabulary, no patterns, 1-100 triples per partial vocabulary, parser batches of
1-50 triples, locale and tokenizer. Oracle: the reference evaluator. Queries that
compare strings by order are left out (counted) for indices with terms on disk
(known finding). Cost: about 45 s for 780 indices.""")

prop("P13", "Every output form and request spelling delivers the same answer",
     "For every query, the JSON answer and the TSV and CSV exports contain the "
     "same rows in the columns that were selected, and the number of rows sent "
     "and announced is right. The answer does not depend on how the request is "
     "spelled: URL encoding, order of parameters, further headers and the "
     "packets in which it arrives.",
     ["inputs", "programs"],
     "all supported queries x knowledge bases x output forms x spellings of a "
     "request",
     "No test sends a request through the server; parsing of the URL, decoding "
     "and output are only tested with single short strings, if at all.",
     ["src/engine/Server.cpp", "src/engine/QueryExecutionTree.cpp",
      "src/util/Socket.h", "src/util/StringUtils.h"],
     [{"name": "reading and decoding a request",
       "where": "src/engine/Server.cpp process, parseHttpRequest; "
                "src/util/StringUtils.h decodeUrl"},
      {"name": "writing answers",
       "where": "src/engine/QueryExecutionTree.cpp writeJsonTable, "
                "writeTable; src/engine/Server.cpp composeResponseJson, "
                "composeResponseSepValues"}],
     "reference evaluator and readers of the output forms",
     E2E + "Oracle: the reference evaluator; exports are read back. " + LEVEL,
     ["body of the HTTP answer"],
     design="""Generated: knowledge base and query pool as for P09, plus literals and queries
with special words (`HTTP`, `%41`, `a+b`, `x&y=z`, non-ASCII). Each query is sent
as raw bytes in a random spelling (plus or %20, upper or lower case hex, more or
less characters encoded, raw UTF-8, shuffled and additional parameters, several
headers, cut into up to six packets) asking for JSON (with different `send`), TSV
or CSV, in 40 % of the cases with a small default number of rows. Oracle: the rows of the reference evaluator. Values with a separator or a
newline in exports are a known finding and left out (counted). Cost: about 25 s
for 20000 requests.""")

prop("P14", "No request makes the server crash, hang or forget its data",
     "For every sequence of requests, valid or not, the server answers each "
     "one (with a result, an error message or by closing the connection), does "
     "not read or write memory it does not own, and afterwards still answers "
     "correct queries correctly.",
     ["inputs", "histories"],
     "all byte sequences sent as requests, in particular queries that are "
     "nearly valid",
     "Tests parse a handful of malformed queries in-process; nobody can list "
     "the malformed ones, and memory errors do not show in ordinary runs.",
     ["src/engine/Server.cpp", "src/parser/SparqlParser.cpp",
      "src/parser/SparqlLexer.cpp", "src/parser/ParsedQuery.cpp",
      "src/parser/PropertyPathParser.cpp", "src/engine/QueryPlanner.cpp",
      "src/engine/GroupBy.cpp"],
     [{"name": "error handling of requests",
       "where": "src/engine/Server.cpp process, processQuery"},
      {"name": "parsing and planning of arbitrary text",
       "where": "src/parser/SparqlParser.cpp, src/engine/QueryPlanner.cpp"}],
     "mutation fuzzing of requests with address and undefined sanitizers",
     "Black-box fuzzing of a server that is built with sanitizers. Oracle: no "
     "sanitizer report, no end of the process, an answer in time, and a "
     "reference query that is answered correctly in between. " + LEVEL,
     ["HTTP answers, exit status and standard error of the server"],
     design="""Generated: a small knowledge base with a text index; sequences of requests made
from valid queries (all operations incl. text) by deleting, inserting, swapping,
duplicating tokens and bytes, swapping variables, nesting, long names, broken
encodings, parameters with odd values, and non-HTTP bytes. Server built with
ASAN+UBSAN. Oracle: process alive, no sanitizer report, an answer for each
request, status field for well-formed HTTP, and the right answer to a fixed query
after each batch. Chains of paths are kept short, because planning time is
exponential in them. Cost: about 40 s for 11000 requests (plus one build).""")

prop("P17", "The triples of a file do not depend on the blocks it is read in",
     "For every document, the triples in the index are the same, or the "
     "document is rejected, wherever the boundaries of the blocks fall in "
     "which the file is read, and however many triples are parsed at once.",
     ["inputs", "configurations"],
     "all well-formed and ill-formed Turtle documents x all block sizes x all "
     "batch sizes",
     "Blocks are 100 MB long, so no test has a document with a boundary in it; "
     "the boundary may fall within any token of the grammar.",
     ["src/parser/TurtleParser.cpp", "src/parser/TurtleParser.h",
      "src/parser/ParallelBuffer.h", "src/parser/Tokenizer.h",
      "src/global/TestableLimit.h",
      "src/index/ConstantsIndexCreation.h"],
     [{"name": "retrying a statement with the next block",
       "where": "src/parser/TurtleParser.cpp resetStateAndRead, getLine"},
      {"name": "reading blocks ahead",
       "where": "src/parser/ParallelBuffer.h getNextBlock"}],
     "differential test over block sizes, reference reader",
     E2E + "The sizes are set via environment variables of a build with "
     "QLEVER_TESTABLE_LIMITS. Oracle: the triples the document was written "
     "from, or the result of reading it at once. " + LEVEL,
     ["answers of a server that loads the index, exit status of the builder"],
     hook="limits set by environment variables (QLEVER_TESTABLE_LIMITS)",
     design="""Generated: documents as for P11 (both tokenizers), 30% of them damaged by
deleting, inserting and copying characters; each is read five times with blocks
of 1 byte up to the whole document and batches of 1-7 triples or the default.
Oracle: the generated triples; for damaged documents what the builder makes of
the document in one piece (including that it is rejected). Cost: about 40 s for
4000 indices.""")

HOOK_COMMITS = ["a8ecc8fcc7dfcc450091bb28810ae29c784b20c2",
                "8c9e9d7731e700a8c2332f13a16676ace4d090e7",
                "b85d034e9801c590ec309199f019f82f341ce6a3",
                "d70c8d1d8d0153978424b2909697239ef81576f9"]
prop("P15", "No input file makes the index builder or the server crash or hang",
     "For every byte sequence given as knowledge base, words or documents file, "
     "the builder either ends with an error message or writes an index that "
     "the server loads and queries without reading or writing memory it does "
     "not own. It never hangs and never ends in any other way.",
     ["inputs", "configurations"],
     "all input files of each format x build options, in particular files "
     "that are nearly valid",
     "Tests read a handful of files; the damaged ones cannot be listed, and "
     "memory errors do not show in ordinary runs.",
     ["src/parser/TurtleParser.cpp", "src/parser/Tokenizer.cpp",
      "src/parser/NTriplesParser.cpp", "src/parser/TsvParser.cpp",
      "src/parser/ContextFileParser.cpp", "src/index/Index.cpp",
      "src/index/Index.Text.cpp", "src/index/DocsDB.cpp",
      "src/index/ConstantsIndexCreation.h", "src/util/Conversions.h"],
     [{"name": "reading knowledge bases",
       "where": "src/parser/TurtleParser.cpp, src/parser/NTriplesParser.cpp, "
                "src/parser/TsvParser.cpp"},
      {"name": "normal form of values",
       "where": "src/index/Index.cpp tripleToInternalRepresentation; "
                "src/util/Conversions.h"},
      {"name": "reading text",
       "where": "src/parser/ContextFileParser.cpp getLine; "
                "src/index/Index.Text.cpp buildDocsDB"}],
     "mutation fuzzing of input files with address and undefined sanitizers",
     "Black-box fuzzing of builder and server built with sanitizers. Oracle: "
     "exit status, sanitizer reports, answers of a server that loads what was "
     "built. " + LEVEL,
     ["exit status and output of the builder", "answers of the server"],
     design="""Generated: valid documents of all formats (from the generators of P11 and P12)
with words and documents files, damaged by deleting, inserting (a list of bytes
and fragments that are special in some format, e.g. malformed values and escape
sequences), repeating and splicing; random settings, arguments, block and buffer
sizes. Oracle: the builder ends with exit status 0, or 2 and a message; no
sanitizer report; what was built can be loaded and queried (or is refused with a
message). Document ids are kept below 10^6 because one offset is stored per id.
Null-pointer checks of UBSAN are off: the library that sorts on disk (stxxl) does
address arithmetic on null pointers in its headers; real accesses still crash.
Cost: about 45 s for 680 files (after building with sanitizers, shared with
P14).""")

prop("P08", "Text search finds exactly the records with the given words and entities",
     "For every text collection and query with words, prefixes and entities, "
     "the answer consists of the records that contain all of them, combined "
     "with every co-occurring entity and joined with the knowledge base, each "
     "record with its excerpt and score. A text limit keeps exactly that many "
     "records (or all, if there are fewer) for each combination of entities, "
     "those with the highest scores.",
     ["inputs", "programs"],
     "all words and documents files x knowledge bases x queries with one or "
     "two text records, up to three entities each, and triple patterns",
     "The tests call the list algorithms with a few short lists; the format "
     "on disk, the choice of lists and the combination with the knowledge "
     "base depend on all words of the collection together.",
     ["src/index/Index.Text.cpp", "src/index/FTSAlgorithms.cpp",
      "src/index/TextMetaData.cpp", "src/index/DocsDB.cpp",
      "src/util/Simple8bCode.h", "src/parser/ContextFileParser.cpp",
      "src/engine/TextOperationWithFilter.cpp",
      "src/engine/TextOperationWithoutFilter.cpp",
      "src/engine/QueryPlanner.cpp"],
     [{"name": "lists of words and co-occurring entities",
       "where": "src/index/Index.Text.cpp addContextToVector, writePostings, "
                "getWordPostingsForTerm, getEntityPostingsForTerm"},
      {"name": "intersection and text limit",
       "where": "src/index/FTSAlgorithms.cpp"},
      {"name": "text operations and their filters",
       "where": "src/engine/QueryPlanner.cpp createJoinCandidates; "
                "src/engine/TextOperationWithFilter.cpp computeResult"}],
     "reference evaluator for text search",
     E2E + "Oracle: an independent evaluator that scans all records. " + LEVEL,
     QUERY_OBS,
     design="""Generated: small knowledge bases (the number of terms varies, so that ids of words
and entities meet in different ways), 1 to 500 text records with words of a pool
with common prefixes, short words, numbers and non-ASCII words, repeated lines,
entities known and unknown to the knowledge base, different distributions of
scores and gaps between record ids, one document per record or fewer; queries
with up to four words or prefixes, fixed entities, up to three entity variables,
a second record that shares an entity, connected triple patterns, filters,
grouping, order, limits and text limits; in half of the cases the cache is kept and
some queries differ from another one in the text limit or one variable only.
Oracle: rows, excerpts and scores (sum of
the scores of the words; number of records for entities) of a direct evaluation;
with a text limit, number and membership of the records and, for one entity and at
most two terms, that no record with a higher score was left out. Left open: row
numbers and scores if a prefix without entity variable matches several words of a
record; which records are chosen among equals. Prefixes have at least four
letters (shorter ones may be refused). Cost: about 20 s for 7000 queries.""")

prop("P16", "Numbers, dates and other typed literals keep their value and its order",
     "Every number or date of the knowledge base is printed with the value and "
     "type it was given, and two spellings of one value are the same term. "
     "Comparisons, ORDER BY, MIN and MAX follow the values of numbers and "
     "points in time, for every sign, length, exponent and year and every "
     "locale. Literals of other types are returned unchanged.",
     ["inputs", "configurations"],
     "all integers, decimals and floating point numbers of up to 30 digits, "
     "all dates, years and times, literals of other types, and all locales of "
     "the index",
     "Values are stored as strings whose bytes have to sort like the values; "
     "each sign, length and exponent takes another branch of the conversion, "
     "and the tests convert a handful of numbers there and back.",
     ["src/util/Conversions.h", "src/index/StringSortComparator.h",
      "src/index/Index.cpp", "src/engine/Filter.cpp",
      "src/parser/TurtleParser.cpp"],
     [{"name": "conversion of values to ordered strings and back",
       "where": "src/util/Conversions.h convertValueLiteralToIndexWord, "
                "convertFloatStringToIndexWord, convertDateToIndexWord, "
                "convertIndexWordToValueLiteral"},
      {"name": "order of the vocabulary",
       "where": "src/index/StringSortComparator.h TripleComponentComparator"},
      {"name": "constants in filters",
       "where": "src/engine/Filter.cpp computeResultFixedValue"}],
     "generated values against exact arithmetic",
     E2E + "Oracle: exact fractions and calendar fields. " + LEVEL, QUERY_OBS,
     design="""Generated: 4-60 literals in two predicates for numbers and two for dates:
numbers of 1-30 digits, often close to an earlier one, with leading and trailing
zeros, signs and exponents up to 300, abbreviated or not; dates, months, years
and times from year -20000 to ten billion, with fractions and time zones;
literals of unknown types and malformed values; other spellings of earlier
values; different locales. Queries: print everything, ORDER BY both ways,
comparisons of all kinds with constants near the values, comparison of two
columns, joins by value, MIN/MAX/COUNT DISTINCT, constants in triple patterns.
Oracle: exact fractions for numbers, calendar fields for dates. Left open: the
order between equal numbers of different types, time zones (the engine drops
them), more than 30 digits, comparisons of malformed values. Cost: about 25 s for
20,000 queries.""")

prop("P18", "Queries that exceed a limit fail alone and leave nothing behind",
     "For every history of queries of which some exceed the memory or time "
     "limit, each query either gets its complete answer or an error that names "
     "the limit. No part of the memory stays occupied: what fitted into the "
     "memory at the beginning fits again once the cache is cleared, and what "
     "did not still does not.",
     ["histories", "programs", "configurations", "fault_sequences"],
     "all histories of queries of all operations, with and without timeouts, "
     "pinning and clearing of the cache x all memory, cache and entry limits "
     "of the server",
     "The limit can be hit inside any operation at any allocation, with partial "
     "results, cache entries and waiting queries around; the tests check the "
     "counter of the allocator on its own.",
     ["src/util/AllocatorWithLimit.h", "src/engine/IdTable.h",
      "src/engine/Server.cpp", "src/engine/Operation.cpp",
      "src/util/ConcurrentCache.h", "src/util/Timer.h"],
     [{"name": "counting of allocated memory",
       "where": "src/util/AllocatorWithLimit.h"},
      {"name": "growth of results",
       "where": "src/engine/IdTable.h"},
      {"name": "failing computations",
       "where": "src/engine/Operation.cpp getResult; "
                "src/util/ConcurrentCache.h computeOnce"}],
     "generated request histories with injected limits",
     E2E + "Oracle: a second server without limits, and the sizes of the "
     "generated relations. " + LEVEL, QUERY_OBS,
     state=[{"name": "free memory", "meaning": "what is left of the limit"}],
     hook="unit of the limits set by an environment variable "
          "(QLEVER_TESTABLE_LIMITS)",
     design="""Generated: 4-7 relations, one of which just fits into the memory and one
that does not; histories of 4-30 requests (scans, joins, sorts, grouping, optional
parts, unions, paths, differences, filters) with timeouts from zero to a
millisecond, pinning and clearing, on a server whose limits are given in bytes
(the hook changes the unit of the limits). Oracle: every complete answer equals the
one of a server without limits; errors have to be about memory, time or pinning;
before and after the history, with an empty cache, scans of less than a third of
the memory must succeed, bigger ones than the memory must fail, and all of them
behave the same both times. Cost: about 40 s.""")

prop("P19", "The statistics of the server are those of the data",
     "For every knowledge base and text collection, the statistics give the "
     "number of different triples, subjects, predicates and objects, of text "
     "records and of word and entity postings, and the names chosen for the "
     "indexes, as valid JSON. The options used for building the index make no "
     "difference.",
     ["inputs", "configurations"],
     "all knowledge bases, text collections, names and options of the builder",
     "The numbers are collected in different phases of the construction and "
     "stored in different files; the tests never look at them for an index "
     "that was written and loaded again.",
     ["src/engine/Server.cpp", "src/index/Index.cpp",
      "src/index/Index.Text.cpp", "src/index/IndexMetaDataImpl.h",
      "src/index/TextMetaData.cpp", "src/index/IndexBuilderMain.cpp"],
     [{"name": "numbers of the permutations",
       "where": "src/index/IndexMetaDataImpl.h "
                "calculateExpensiveStatistics"},
      {"name": "numbers of the text index",
       "where": "src/index/Index.Text.cpp passContextFileIntoVector"},
      {"name": "answer of the server",
       "where": "src/engine/Server.cpp composeStatsJson"}],
     "reference counts of generated data",
     E2E + "Oracle: counting the generated triples and text lines. " + LEVEL,
     ["HTTP response of the server to cmd=stats"],
     design="""Generated: knowledge bases of 1 to 2000 triples with all ratios of subjects,
predicates and objects, duplicates, small and big relations (block limits as in
the other checks), several partial vocabularies; for a third of the cases a text
collection; names with quotes, backslashes, control and non-ASCII characters; the
options without patterns, with terms on disk, without prefix compression. Oracle:
counts of the generated data, names as given, JSON that parses. Knowledge bases
with language tags are left out, because the engine adds internal triples for
them. Cost: about 45 s.""")

prop("P20", "The cache keeps recent and pinned results and stays within its limits",
     "For every history of queries, pinning and clearing, a result is served "
     "from the cache if it is pinned or if it and everything used since then "
     "fit into the limits for number and size of entries, and never if it was "
     "not asked for since the last clearing or is bigger than the limit for one "
     "entry. The entries that are not pinned never exceed the limits, and the "
     "reported numbers and sizes of pinned entries are exact.",
     ["histories", "configurations"],
     "all histories of requests over up to twelve results x all limits for "
     "the size of the cache, the size and the number of entries",
     "Eviction depends on the sizes and the order of all earlier requests; the "
     "tests use caches with a few strings of chosen sizes.",
     ["src/util/Cache.h", "src/util/ConcurrentCache.h",
      "src/util/PriorityQueue.h", "src/engine/Operation.cpp",
      "src/engine/QueryExecutionContext.h", "src/engine/Server.cpp"],
     [{"name": "insertion, eviction and pinning",
       "where": "src/util/Cache.h FlexibleCache"},
      {"name": "pinning of results that are already cached",
       "where": "src/util/ConcurrentCache.h computeOncePinned"},
      {"name": "commands of the server",
       "where": "src/engine/Server.cpp process, composeCacheStatsJson"}],
     "generated request histories against a model of the cache",
     E2E + "Oracle: a model that keeps the order of use. " + LEVEL,
     ["was_cached of the HTTP responses", "HTTP response to cmd=cachestats"],
     state=[{"name": "order of use", "meaning": "results by last use"},
            {"name": "pinned entries", "meaning": "results that stay"}],
     hook="unit of the limits set by an environment variable "
          "(QLEVER_TESTABLE_LIMITS)",
     design="""Generated: 2-12 relations with 1-60 rows, limits around the sums of their sizes,
1-1000 entries, histories of 6-80 scans (some relations are asked for more often),
pinning, both ways of clearing and failing queries. Oracle: whether an answer may or
must come from the cache according to the order of use (if what was used since then
just does not fit, both are accepted, so other replacement details stay free);
number and size of the pinned entries; limits for the others. A result that is too
big for an entry may be refused when it should be pinned. Cost: about 15 s for
50,000 requests.""")

prop("P21", "The command line programs agree with the index builder and the server",
     "For every knowledge base and list of queries, the command line query "
     "program prints the rows that the query selects, also if the predicates "
     "per subject were added to a finished index by the program for that. For "
     "every valid document the converter writes valid N-Triples with exactly "
     "the document's triples, up to the names of blank nodes.",
     ["inputs", "configurations"],
     "all knowledge bases, all lists of supported queries, all Turtle and "
     "N-Triples documents x readers of the converter",
     "The programs are not run by any test.",
     ["src/SparqlEngineMain.cpp", "src/TurtleParserMain.cpp",
      "src/index/CreatePatternsMain.cpp", "src/index/Index.cpp",
      "src/engine/QueryExecutionTree.cpp"],
     [{"name": "query program", "where": "src/SparqlEngineMain.cpp processQuery"},
      {"name": "converter", "where": "src/TurtleParserMain.cpp writeNTImpl"},
      {"name": "patterns for a finished index",
       "where": "src/index/Index.cpp addPatternsToExistingIndex"}],
     "generated data, queries and documents against the reference evaluator "
     "and the generator's triples",
     "Runs the programs themselves. " + LEVEL,
     ["standard output and output files of the programs"],
     design="""Generated: half of the cases are knowledge bases with lists of queries (those of
P07 for predicates per subject, otherwise the mix of P09), in 60 % with patterns made
afterwards; the others are documents as in P11 in three formats and for both
tokenizers (the second one does not know all of Turtle, so it gets the restricted
spelling). Oracle: the reference evaluator and the printed number of matches; a strict
reader of N-Triples and the generated triples. Values with tabs or newlines are left
out of the queries (known finding of P13). Cost: about 20 s for 600 cases.""")

prop("P22", "The server sends its web pages unchanged and no other file",
     "For every content of the start page, the style sheet and the script, a "
     "request for one of them is answered with exactly its current bytes and "
     "its type. Every other name, whatever its spelling and whatever files "
     "exist, and a page that does not exist, is refused without any file's "
     "content.",
     ["inputs", "histories"],
     "all contents of the pages x all request targets x all changes of the "
     "pages between requests x numbers of clients",
     "There is no test of the server's treatment of files; the names to refuse "
     "are unbounded.",
     ["src/engine/Server.cpp", "src/util/Socket.h"],
     [{"name": "list of pages", "where": "src/engine/Server.cpp process"},
      {"name": "sending a file", "where": "src/engine/Server.cpp serveFile"},
      {"name": "refusal", "where": "src/engine/Server.cpp create404HttpResponse"}],
     "generated pages and request targets over HTTP",
     "Runs the server in a scratch directory that also holds other files. " + LEVEL,
     ["answers of the server"],
     design="""Generated: contents of 0 bytes to 3 MB (text, random bytes, line ends and zero
bytes), pages that are missing, and one to three rounds of changes; targets that are
the pages (with and without parameters), one edit away from them, their paths in other
spellings, names of the index files and of files with a secret in the same directory,
below it, and paths that leave it. Oracle: the bytes that were written, the type by
name, 404 for everything else, the secret in no answer, and the stated length. Cost:
about 25 s for 500 cases.""")

prop("P23", "The report on the execution agrees with the answer and the data",
     "For every knowledge base and history of queries, the report that comes "
     "with an answer names the selected columns and gives as number of rows "
     "of the whole query the number of its solutions, also if parts came from "
     "the cache. Within the report every scan of one relation has as many "
     "rows as there are matching triples, a sort as many as its input, a "
     "union as many as both inputs, and a filter or difference at most as "
     "many as its input.",
     ["inputs", "histories"],
     "all knowledge bases x all histories of supported queries and of clearing "
     "the cache",
     "Tests look at single operations without the cache; the report is "
     "assembled from results of different queries.",
     ["src/engine/Operation.h", "src/engine/Operation.cpp",
      "src/engine/RuntimeInformation.h", "src/engine/Server.cpp"],
     [{"name": "assembling the report",
       "where": "src/engine/Operation.h createRuntimeInformation"},
      {"name": "report as JSON", "where": "src/engine/RuntimeInformation.h to_json"},
      {"name": "children", "where": "src/engine/Union.cpp computeResult"}],
     "generated histories against the reference evaluator and relations "
     "within the report",
     "Runs the server. " + LEVEL,
     ["runtimeInformation and resultsize in the server's JSON answers"],
     design="""Generated: the queries of P09 (every sixth case those of P07) in histories of 6 to 48
steps with repetitions and clearing. Oracle: number of solutions by the reference
evaluator, counts of triples, and the relations stated. Not decided: times, texts
of the descriptions (operations are recognised by their first word and skipped if it is
unknown), and which operations are chosen. Cost: about 20 s for 700 cases.""")

NOT_APPLICABLE = []

# planted bug -> checks that catch it (quick tier, seed 1)
SEEDED = [
    ("group-fourth-variable", "P04"),
    ("escape-plane-16", "P11"),
    ("statement-over-blocks", "P17"),
]
