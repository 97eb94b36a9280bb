# -*- coding: utf-8 -*-
"""
Single source of the property list and of the checks that decide them.
tools/gen.py writes properties.jsonl and MANIFEST.json from it; check.py looks
up the module of a property here.
"""

L = "lib/daeso/"
PROPS = []


def P(id, title, statement, over, text, tests, files, mech, module=None, note="",
      assume=(), observe=(), workers=None, na=None, thorough_limit=None):
    PROPS.append(dict(
        id=id, title=title, statement=" ".join(statement.split()),
        over=over.split(), text=" ".join(text.split()), tests=" ".join(tests.split()),
        files=files, mech=mech, module=module, note=" ".join(note.split()),
        assume=list(assume), observe=list(observe), workers=workers, na=na,
        thorough_limit=thorough_limit))


P("C01", "Writing a parallel graph corpus and reading it back yields an equal corpus", """
    A corpus written to a file (by name or as an open file, pretty printed or
    not, with absolute or relative graph bank paths) and read back has the same
    graph pairs in the same order with the same labelled node alignments, graph
    banks and graphs, the same relations and the same corpus and pair meta-data,
    so it compares equal to the original and writing it again gives the same
    bytes. This holds for all text, including XML specials and non-ASCII characters, and for
    arbitrary user-defined meta-data whatever element names it uses. Writing
    does not change the corpus in memory.""",
  "inputs histories",
  """every corpus over small alphabets of pairs, alignments, relations, meta-data
    shapes and texts, and every write option""",
  """the corpus tests that can run here only load a corpus without graphs; no test
    writes a corpus and compares, and none varies meta-data, text or options""",
  [L + "pgc/corpus.py", L + "pgc/graphpair.py", L + "utils/etree.py"],
  [("XML generation", "pgc/corpus.py PGCGenerator"), ("event driven XML parsing", "pgc/corpus.py PGCParser"),
   ("element comparison and writing", "utils/etree.py")],
  module="c01_roundtrip",
  note="""Complete products over alignments, pair sequences, meta-data shapes, texts, relations, options and
    edit/save histories, written to and read from real files.""")

P("C02", "Graph bank references survive writing a corpus elsewhere, copying and relocating", """
    When a corpus is written in any directory (relative or absolute paths, the
    output named relatively, absolutely or through symbolic links) each graph
    pair still refers to the same graph bank file when the written corpus is read back, from
    whatever working directory. Moving corpus and banks together keeps
    relatively written references valid, and reading with relaxed paths uses a
    bank next to the corpus exactly when the recorded path does not exist. The copy and directory-change tools
    retarget exactly the references they are asked to and leave everything else intact.""",
  "configurations inputs",
  """all combinations of bank location, output location, way of naming the output, path
    mode, working directory and relocation step in a small directory tree""",
  """no runnable test writes graph bank paths or moves files""",
  [L + "pgc/corpus.py", L + "gb/graphbank.py", "bin/pgc_cp.py", "bin/pgc_chdir.py"],
  [("relative path computation", "pgc/corpus.py _gen_graphbanks"),
   ("path resolution and relaxed lookup", "pgc/corpus.py handle_file_elem_end"),
   ("copy / chdir scripts", "bin/pgc_cp.py, bin/pgc_chdir.py")],
  module="c02_relocation",
  note="""All combinations of bank places, output places and names, working directories, path modes,
    relocation steps, presence of files and tool options in a real directory tree with directory links.""")

P("C03", "One-to-one alignments stay one-to-one under every edit history", """
    In a graph pair with one-to-one alignment, after any sequence of alignment
    additions and removals, every source node and every target node takes part in at
    most one alignment: aligning two nodes frees both from earlier partners and sets
    the new relation, and removing deletes exactly that alignment (removing one that does not exist fails
    and changes nothing). Lookups from either side, listing, filtering by
    relation and counting all agree with this, also when source and target use
    the same node identifiers, and the roots count as aligned exactly when the two root nodes are. Nodes that lose their last alignment are no longer held by the pair.""",
  "histories",
  """all operation sequences over 3x3 (and 4x4) nodes and two relations, from every reachable state,
    with shared, disjoint and overlapping identifiers""",
  """the tests run two fixed sequences of a few operations on fixed nodes""",
  [L + "pgc/graphpair.py", L + "pair.py"],
  [("freeing old partners", "pgc/graphpair.py GraphMatching.add_align"),
   ("removal and house keeping of nodes", "pgc/graphpair.py GraphMapping.del_align"),
   ("lookups and listing", "pgc/graphpair.py alignments_iter, get_aligned_source_node, get_aligned_target_node")],
  module="c03_matching",
  note="""Every reachable alignment state over 3x3 nodes with two relations and 4x4 with one
    (thorough 4x4 with two, 5x5 with one), every operation from each, and all unmerged histories to a depth,
    on the real objects; closed under the operations, so any history length within these node sets.""")

P("C04", "Many-to-many alignments and deep copies under every edit history", """
    A graph pair with unrestricted alignment holds, after any sequence of
    additions and removals, exactly one relation per aligned node pair (the last
    one assigned) and nothing else; removing a missing alignment fails without effect. A deep
    copy of a graph pair taken at any moment equals its original, shares its
    graphs and graph banks, and later changes of alignments or meta-data on
    either side are never visible on the other.""",
  "histories",
  """all operation sequences over small node sets from every reachable state; deep copies taken after
    every history up to a depth, followed by every operation on either side, for every meta-data shape""",
  """the tests copy one pair with one alignment and run one sequence""",
  [L + "pgc/graphpair.py"],
  [("add, delete, get", "pgc/graphpair.py GraphMapping"), ("deep copy", "pgc/graphpair.py __deepcopy__")],
  module="c04_mapping",
  note="""Complete reachable state space of many-to-many alignments on up to 3x3 nodes; deep copies after
    all histories of up to 2 (thorough 3) operations, each followed by every operation on either side.""")

P("C05", "Equality of pairs, graph banks, graph pairs and corpora", """
    Two graph pairs are equal exactly when their banks refer to the same files
    (however the path is spelled, and whether or not the files exist), their graphs have the same ids, their labelled
    alignments are the same in any order and their meta-data is equal up to
    surrounding white space; corpora are equal exactly when relations, meta-data
    and the sequence of graph pairs are equal. The verdict is symmetric,
    reflexive, never an error, and inequality is always its negation.""",
  "inputs",
  """all pairs of objects from finite universes of alignments, meta-data shapes, bank paths
    (plain, symbolic link, hard link, missing), graph ids and corpora""",
  """tests compare three hand-made pairs and never unequal meta-data, missing files or !=""",
  [L + "pgc/graphpair.py", L + "pgc/corpus.py", L + "gb/graphbank.py", L + "pair.py", L + "utils/etree.py"],
  [("graph pair equality", "pgc/graphpair.py __eq__, _alignments_equal, _meta_data_equal"),
   ("bank equality", "gb/graphbank.py __eq__"), ("element equality", "utils/etree.py equals")],
  module="c05_equality",
  note="""All ordered pairs from the listed universes are compared with == and != in both directions
    against equality of plain values.""")

P("C06", "Corpus list operations keep pairs, relations and meta-data right", """
    Under any sequence of list operations (indexing, slicing, slice assignment and
    deletion, insert, append, extend, pop, remove, reverse, concatenation,
    repetition, copying) a corpus holds exactly the graph pairs a plain list would
    hold, in that order, and corpora obtained by slicing, adding or repeating carry the relations
    and meta-data of the (left) original. Operations that are refused (wrong type, different
    relations, index out of range, missing pair) leave the corpus unchanged. A deep copy is equal but
    independent.""",
  "histories",
  """all operation sequences up to a depth on corpora of up to four pairs, with all small indices and
    slices""",
  """the tests of these operations need a parser that is not available, and try one
    argument per operation""",
  [L + "pgc/corpus.py"],
  [("list protocol overrides", "pgc/corpus.py ParallelGraphCorpus"),
   ("compatibility check", "pgc/corpus.py _check_compatibility")],
  module="c06_listops",
  note="""Every operation with every small argument from every content of up to three (thorough four) pairs,
    against a plain list of the same objects, plus unmerged histories over derived corpora.""")

P("C07", "Loading modes agree and dangling references are reported", """
    Reading the same corpus (of pairs of two graphs) while loading all graphs, only the referenced ones,
    or none, gives the same pairs, graph ids, alignments, relations and
    meta-data; the two loading modes deliver graphs with identical content, one
    graph object per bank and graph id, shared by all pairs that use it. A
    reference to a missing bank id, graph id or bank file is
    reported as a corpus error, never as a silently incomplete corpus.""",
  "inputs configurations",
  """all small corpora (which banks, which graphs are referenced by which pairs, which are missing) in every
    loading mode""",
  """only one load without graphs is tested""",
  [L + "pgc/corpus.py", L + "gb/graphbank.py", L + "gb/graphstub.py", L + "gb/parser.py"],
  [("graph stubs replaced after loading", "gb/graphstub.py replace_stub"),
   ("sparse loading", "gb/graphbank.py SparseGraphBank.load"),
   ("unresolved graphs", "gb/parser.py _check_for_unresolved_graphs")],
  module="c07_loading",
  note="""Every sequence of up to three (thorough four) pairs from seven combinations and every single pair
    over seven graphs in three banks, in each mode; every kind of dangling reference at each position.
    A pair of a graph with itself is outside (the code documents it as impossible).""")

P("C08", "Purging and writing identify graph banks by file", """
    Purging a corpus leaves every graph pair attached to the same bank files as before but with
    one single bank object per file, shared by all pairs; purging only one pair
    touches no other pair. A written corpus lists each used bank file exactly once,
    under distinct ids, whatever combination of duplicate bank objects, link or path spellings the pairs
    hold, and every pair refers to the right one.""",
  "histories inputs",
  """all assignments of bank objects (fresh, shared, aliased through links, missing files) to the
    source and target sides of up to four pairs""",
  """the purge tests cannot run here and use one fixed corpus""",
  [L + "pgc/corpus.py", L + "gb/graphbank.py"],
  [("bank remapping", "pgc/corpus.py purge"), ("bank remapping on output", "pgc/corpus.py _gen_aligned_graphs")],
  module="c08_purge",
  note="""Every assignment of bank objects (shared, duplicate, symbolic and hard links, missing files) to the sides
    of up to three pairs, with purging of one pair, all pairs, concatenation and writing.""")

P("C09", "GraphML graph banks are parsed faithfully", """
    Every graph in a GraphML graph bank is read with its id, tokens, root,
    attributes, nodes, and edges (the edges of a node in document order), each with its own label,
    tokens and attributes, wherever data elements occur inside the graph, and
    with declared default values for attributes that are not given. The result
    does not depend on how the text is cut into pieces while parsing. Sparse
    parsing yields exactly the requested graphs and reports requested graphs
    that are absent; required label or token attributes that are missing are an error.""",
  "inputs configurations",
  """all small banks over structure, data placement, key declarations, defaults, text with XML specials,
    every split of the text in up to three chunks, every request set""",
  """one test parses one sample file and checks nothing""",
  [L + "gb/graphml.py", L + "gb/parser.py"],
  [("element handlers and context", "gb/graphml.py GraphmlParser"), ("incremental parsing", "gb/parser.py parse_string")],
  module="c09_graphml",
  note="""Documents are generated from plain descriptions over complete products of structure, data placement,
    key declarations and defaults, texts, cuts and requests; nodes are declared before their edges.""")

P("C10", "Ordered graphs: insertion order, node guarantees and terminal yield", """
    After any sequence of node and edge additions and removals an ordered graph
    contains exactly the nodes, edges and attributes of a plain reference graph,
    and the successors and predecessors of a node iterate in insertion order; no two nodes or edges added together share attribute
    storage. In a Daeso graph an edge to or from a missing node is refused without effect. Terminals,
    non-terminals and the terminal yield of any node (in depth-first order, each terminal once,
    with punctuation or empty terminals optionally excluded) are right for
    every graph, including those with shared nodes or cycles.""",
  "histories inputs",
  """all operation sequences up to a depth, and all directed graphs on up to four nodes with all
    edge insertion orders""",
  """tests use three fixed graphs""",
  [L + "graph/ograph.py", L + "graph/daesograph.py"],
  [("ordered adjacency", "graph/ograph.py ODiGraph"), ("terminal yield", "graph/daesograph.py terminal_yield")],
  module="c10_graphs",
  note="""All histories up to a depth from four start graphs against a plain model, for both graph classes; all
    digraphs on up to three nodes with all successor orders and on four nodes, with every kind of tokens.""")

P("C11", "Alignment evaluation counts and scores follow their definition", """
    For every series of pairs of corpora over the same graph pairs, evaluation counts, per
    relation and regardless of relation, the aligned node pairs of the true corpus, of the predicted
    corpus and of both, and derives precision (common over predicted), recall
    (common over true) and F (their weighted harmonic mean), zero where undefined. Micro averages are the scores of summed
    counts, macro averages the means of scores, with sample variance and deviation; the written report
    shows exactly these numbers. Evaluation leaves the corpora unchanged.""",
  "inputs",
  """all pairs of small true and predicted alignments with up to five relations, one-to-one and many-to-many,
    over one and two graph pairs and up to three corpora""",
  """the evaluation tests cannot run here (missing parser)""",
  [L + "pgc/evaluate.py"],
  [("counting", "pgc/evaluate.py AlignEval.add"), ("scores and averages", "pgc/evaluate.py AlignCounts, AlignCountsTable"),
   ("report", "pgc/evaluate.py write")],
  module="c11_evaluate",
  note="""Complete products of true and predicted alignments against counts of plain sets and independently written formulas;
    relations are those the evaluation was set up for.""")

P("C12", "Annotator agreement is the average over all annotator pairs", """
    Agreement between two or more annotated corpora reports, for every ordered
    pair of annotators and per relation as well as regardless of relation, the scores of evaluating the second against the first, with
    the mean and sample deviation per annotator and over all such pairs; restricted to words, only
    alignments between two terminal nodes count. Exchanging the annotators of
    a pair exchanges precision and recall and leaves F as it is. The printed and pickled results hold the same numbers.""",
  "inputs",
  "all combinations of small alignments for two to four annotators",
  "no test of agreement exists that can run here",
  [L + "pgc/agreement.py", L + "pgc/evaluate.py", "bin/pgc_agreement.py"],
  [("cross evaluation", "pgc/agreement.py cross_evaluate"), ("tables", "pgc/agreement.py tableize"),
   ("statistics", "pgc/agreement.py AnalysesTable")],
  module="c12_agreement",
  note="""All pairs, triples and quadruples over fixed sets of annotations stored in files, with and without
    restriction to words, against independently computed scores; a fixed part of them also through the tool.""")

P("C13", "Corpus comparison reports exactly the differing alignments", """
    Comparing two corpora over the same graph pairs reports, for every graph pair, exactly the
    node pairs aligned only in the first, only in the second, and in both but with another relation (on request also the
    identical ones), each once, under its own heading, numbered consecutively over the whole report, in order of source node,
    with the labels, words and both relations ("NONE" if not aligned). Leaving out non-terminal pairs or giving
    relations restricts the report to the pairs selected in either corpus, comments are shown on request, and everything goes to the given output.""",
  "inputs",
  "all ordered pairs of alignments (two relations) over two pairs of small graphs, with all options; the script over two graph pairs with comments",
  "no test of comparison exists",
  [L + "pgc/diff.py", "bin/pgc_diff.py"],
  [("comparison", "pgc/diff.py pgc_diff")], module="c13_diff",
  note="node identifiers in a graph are all numbers or none are")

P("C14", "Statistics tables: counting, writing and reading back", """
    Corpus and graph bank statistics report for every corpus and every graph bank exactly the number of graph pairs, node
    pairs per relation, graphs, tokens and nodes that the options select (graphs, pairs and nodes left out by an option are
    counted nowhere), percentages and averages follow from the counts, and summary rows are those of all rows together.
    A statistics table written to text and read back has the same rows, names and values (to two decimals), a truncated
    table is refused, and counting part of a corpus segment again leaves totals equal to the sum of its parts.""",
  "inputs histories",
  "all corpora of at most two graph pairs over 30 combinations of graphs and alignments with the five options; graph banks of up to three graphs; the scripts; tables of up to three rows; segments counted, changed, counted again",
  "no test of statistics exists",
  [L + "pgc/pgcstats.py", L + "gb/gbstats.py", L + "stats/table.py", L + "stats/corpus.py", "bin/pgc_stats.py", "bin/gb_stats.py"],
  [("table", "stats/table.py"), ("counts", "pgc/pgcstats.py, gb/gbstats.py")], module="c14_stats",
  note="counts below ten million, ASCII names; failed parses and empty nodes come from a bank format registered by the harness")

P("C15", "Parallel text corpora: alignments, renumbering, reading and writing", """
    A parallel text corpus file that is read and written keeps all its alignments, attributes, render settings and file
    references. Alignments put into the document trees relate exactly the elements the links refer to (by position or by
    identifier), seen from both sides, and taken out again they are the same links; converting positions to identifiers never
    changes which elements are aligned or anything else, and fails without touching the file if an aligned element has no
    identifier. Changing the directory changes only the two paths, to the base name in the new directory (a dry run changes nothing);
    documents are searched as given, relative to the corpus, and by name next to the corpus.""",
  "inputs histories",
  "all subsets of nine links by both methods; elements without identifiers; path and directory combinations; all histories of operations on a new corpus up to a depth",
  "no tests exist for parallel text corpora",
  [L + "ptc/document.py", "bin/ptc_n_to_id.py", "bin/ptc_chdir.py"],
  [("reading and writing", "ptc/document.py HitaextDoc")], module="c15_ptc")

P("C16", "Text index of document trees matches the document text", """
    For every document tree the index gives each element exactly the span of the document text made up of its own
    text, its children in order and the texts in between (white space at the edges stripped, line breaks after the
    tags asked for), its number among elements of its tag, and lookup by position and by identifier. Ignored elements and everything inside
    them are marked as ignored and contribute no text (the text following them does), and updating the index again with other settings gives
    the same result as indexing from scratch.""",
  "inputs histories",
  "all element trees of up to four (five) elements over two tags with texts and tails, sets of ignored and line breaking tags, and sequences of updates",
  "no tests exist for the index",
  [L + "ptc/ielemtree.py"],
  [("span computation", "ptc/ielemtree.py IndexElemTree")], module="c16_index")

P("C17", "Automatic text alignment respects scope, threshold and ignore lists", """
    Automatic alignment links exactly the pairs of elements with the requested tags, inside aligned scope elements (or anywhere
    if no scope is given) and not inside ignored ones, that the filter selects by their score: all, those above the threshold, or, without crossings,
    those at or above the threshold that cross no better (or equally good) link. Existing alignments of other tags are left alone, those of
    the requested tags are removed or kept as asked, and nothing is linked twice. The term, weight and similarity functions provided follow their definitions.""",
  "inputs configurations",
  "all pairs of five documents with subsets of existing links, scopes, ignore lists and filters; all small tables of scores; the provided functions over all small inputs",
  "no tests exist for the aligner",
  [L + "ptc/textalign.py"],
  [("aligner", "ptc/textalign.py TextAligner")], module="c17_textalign",
  note="stop word removal comes from a stand-in, as the module with Dutch stop words is not part of the repository")

P("C18", "Parallel text evaluation and comparison", """
    Evaluating predicted against true text alignments counts, per file and overall, exactly the distinct links between elements
    of the requested tag in the truth, in the prediction and in both, whether links use positions or identifiers,
    with ratio, precision, recall and F by definition (zero when undefined). Comparing two corpora reports each link from an element of the tag
    that only one of them has exactly once, with the side, identifiers and texts, numbered consecutively, and nothing else, independent of the order of links and also for elements without identifiers.""",
  "inputs",
  "all ordered pairs of subsets of seven links (three kinds of reference) for several tags; tables over up to three files; the scripts; all small counts",
  "no tests exist",
  [L + "ptc/evaluate.py", L + "ptc/diff.py", "bin/ptc_eval.py", "bin/ptc_diff.py"],
  [("evaluation", "ptc/evaluate.py"), ("comparison", "ptc/diff.py")], module="c18_ptceval")

P("C19", "Creating a graph corpus from an aligned text corpus", """
    Creating a parallel graph corpus from a text corpus aligned by identifiers yields exactly one graph pair, without node
    alignments and in the order of the links, for every link between the requested tags whose texts are not
    longer than the given number of words and differ in at least the given number of words; each pair consists of the graphs of the same
    identifiers from the given source and target banks. Missing graphs or unequal numbers of files are errors; the script writes one readable corpus per text corpus.""",
  "inputs configurations",
  "all sequences of at most two links and subsets of twelve links, with a grid of filters, tags and relations; the script",
  "no test of creation can run here",
  [L + "pgc/creation.py", "bin/pgc_from_ptc.py"],
  [("selection", "pgc/creation.py pgc_from_ptc")], module="c19_creation")

P("C20", "Global and local sequence alignment are optimal", """
    Global alignment of two sequences returns a one-to-one, order preserving list of position pairs whose score (similarities
    of the pairs plus the gap costs of all other elements, which may depend on the element) is the highest of all such lists, and reports
    that score; local alignment returns a highest scoring one when the gaps before and after it are free, and returns nothing
    when no alignment scores above zero. The sequences, of any type, are not changed.""",
  "inputs",
  "all pairs of sequences up to a length over a small alphabet, all scoring schemes from a grid",
  "tests compare a few hand-picked words",
  [L + "string/needleman_wunsch.py", L + "string/smith_waterman.py"],
  [("dynamic programming and backtracking", "string/needleman_wunsch.py, string/smith_waterman.py")], module="c20_align")

P("C21", "Repeated local alignment yields the best non-intersecting alignments", """
    Repeated local alignment of two sequences with negative gap costs lists local alignments that share no matched pair of positions,
    best first: the first one is an optimal local alignment, each next one is optimal among alignments without the pairs of
    earlier ones, successive alignments never share a pair, every pair of positions with a positive similarity is aligned in the end, and
    the enumeration ends. With a limit it returns the beginning of that list.""",
  "inputs",
  "all pairs of sequences up to a length over a small alphabet and a grid of scores",
  "tests check one published example",
  [L + "string/waterman_eggert.py"],
  [("recalculation of the score matrix", "string/waterman_eggert.py")], module="c21_waterman")

P("C22", "Longest common subsequence, edit distance and median string", """
    The longest common subsequence functions return a common subsequence of both inputs, of the type of the
    inputs, and no longer one exists; the edit distance is the least number of insertions, deletions and substitutions that turn one
    sequence into the other; their normalised forms are these divided by the geometric mean of the lengths and by the longer length, between 0 and 1, and 0 for empty input.
    The set median of a non-empty collection is a member with the least total distance to all members.""",
  "inputs",
  "all pairs of sequences up to a length over two and three letters, all small collections with five distance functions",
  "tests check a handful of words",
  [L + "string/lcs.py", L + "string/levenshtein.py", L + "string/median.py"],
  [("dynamic programming tables", "string/lcs.py, string/levenshtein.py")], module="c22_editing")

P("C23", "N-grams, skip-grams and overlap measures follow their definitions", """
    N-grams of a sequence of any type, padded or not, are all its contiguous n-length windows in order, and skip bigrams all ordered
    pairs of elements with at most the given number of elements in between, for every sequence of any length, n, padding and skip. ROUGE-N is the share of the reference n-grams matched by
    candidate n-grams, each of which matches at most as often as it occurs; ROUGE-L, -S and -SU are F-measures over the longest common subsequence and the distinct skip bigrams. All lie in [0, 1], give 1 for
    identical texts and 0 for texts with nothing in common or too short to have n-grams.""",
  "inputs",
  "all sequences up to a length over a small alphabet, all n, skips and weights",
  "tests check single examples",
  [L + "string/ngram.py", L + "string/sgram.py", L + "string/rouge.py"],
  [("generation", "string/ngram.py, string/sgram.py"), ("formulas", "string/rouge.py")], module="c23_grams")

P("C24", "Set similarity measures are symmetric, bounded and follow their formulas", """
    For all sequences and sets the cosine, Tanimoto, Dice and overlap coefficients equal the number of distinct elements in common divided by their
    published normalisation of the two lengths, and Jaccard that number divided by the size of the union; every measure is symmetric, lies in [0, 1], gives 1 for equal
    non-empty sets and 0 for disjoint or empty ones. The generalised measures of several sequences follow the same formulas, do not depend on the order and agree with the pairwise ones on two sequences; the
    match counts count common types and tokens.""",
  "inputs",
  "all pairs of sequences up to a length over three letters, in seven types; all lists of up to four sequences",
  "tests check one or two pairs per measure",
  [L + "string/similar.py"],
  [("coefficients", "string/similar.py")], module="c24_similar")

P("C25", "Term weighting of document collections", """
    Term frequencies, document frequencies, inverse document frequencies and term weights (relative frequency or
    indicator times inverse document frequency, optionally normalised by the logarithm of the number of documents) equal their formulas for every small
    collection of documents, including empty documents, repeated documents and collections of one document or none; terms are listed once in
    sorted order, normalised weights lie in [0, 1], and the documents are left alone.""",
  "inputs",
  "all collections of up to five documents over small vocabularies",
  "tests check one collection",
  [L + "string/tf_idf.py"],
  [("weights", "string/tf_idf.py")], module="c25_tfidf")

P("C26", "Spelled-out Dutch numbers are correct and unambiguous", """
    Every number from zero up to a septillion (24 digits) is spelled out as the Dutch number word for exactly that value:
    reading the words back by the regular spelling gives the number, so different numbers get different words; parts that are zero are not spoken except zero itself, a
    hundred and a thousand go without one, and four-digit numbers are told in hundreds if that is preferred and they do not end a thousand. Importing the module prints nothing.""",
  "inputs",
  "all numbers up to a million, and all magnitudes beyond with all patterns of zero groups",
  "no tests exist",
  [L + "string/number.py"],
  [("triple wise spelling", "string/number.py")], module="c26_numbers")

P("C27", "The cache returns stored values and evicts the least recently used", """
    Under any sequence of insertions, fetches, deletions, clock advances and reconfigurations a cache
    returns for each key (of any type, by its string form) the last value stored unless that entry was deleted, is older than the expiry time
    or was evicted, and otherwise the given default or an error; when full, the entry evicted is always the one used longest ago,
    storing under a present key evicts nothing, and the size never exceeds the limit. Missing values are generated once, with the given arguments; a memoised function (functions sharing a cache having different names) always returns
    what the function would return.""",
  "histories",
  "all operation sequences up to a depth over three or four keys, small limits and clock steps",
  "no tests exist for the cache",
  [L + "thirdparty/GenericCache"],
  [("LRU list, expiry", "thirdparty/GenericCache")], module="c27_cache")

P("C28", "The cache is safe under concurrent use", """
    When several threads use one cache at the same time, every interleaving
    gives results, contents and an order of use that some one-at-a-time order of the same calls gives, a missing value that several threads ask for is generated once, the
    size limit holds whenever no call is in progress, and no call
    deadlocks, loops for ever, keeps a lock or fails with an internal error, also when generating a value uses the same cache.""",
  "schedules",
  "all schedules of two or three threads with one to three calls each, up to a preemption bound",
  "no tests exist; tests run in a single thread",
  [L + "thirdparty/GenericCache"],
  [("re-entrant lock", "thirdparty/GenericCache")], module="c28_schedules")

P("C29", "Assignment solver returns a minimum-cost one-to-one assignment", """
    For every cost matrix with at least one row, square or rectangular, of integers of any size, negative
    numbers or fractions, the solver returns an assignment that uses each row and
    column at most once, assigns as many as possible, and has the least total cost among all such
    assignments; the matrix given by the caller is not changed, and a solver used for several matrices
    answers each as a new solver would. Turning profits into costs, padding a matrix with a given value and printing
    a matrix preserve its entries.""",
  "inputs histories",
  "all matrices up to 3x3 over a small set of costs, larger ones over fewer costs, and sequences of calls",
  "no tests exist",
  [L + "thirdparty/munkres.py"],
  [("Munkres steps", "thirdparty/munkres.py")], module="c29_munkres")

P("C30", "Counter and ordered dictionary behave like their standard counterparts", """
    Under every sequence of operations the ordered dictionary holds the entries of a plain
    dictionary and iterates in order of first insertion (deleted and re-inserted keys move to the end): its keys, values
    and items as lists, iterators and views, reversed iteration, printed representation, copies and pickles all show that
    order, and taking an item from it takes the last. The counter counts like a multiset, with zero for absent
    elements, deleting absent elements allowed; updates add counts, its sum, difference, union and
    intersection keep the positive counts only and leave their operands alone, and its most-common listing and
    listing of elements follow the counts.""",
  "histories inputs",
  "all operation sequences up to a depth over three keys",
  "no tests exist",
  [L + "thirdparty/odict.py", L + "thirdparty/counter.py"],
  [("linked list order", "thirdparty/odict.py"), ("multiset", "thirdparty/counter.py")], module="c30_containers")

P("C31", "Corpus tools: split, join, zip and phrase extraction lose nothing", """
    Splitting a corpus writes parts that together hold each graph pair once, in order, with the relations and
    meta-data of the corpus; the parts, save the last, are of equal size, the size asked for or the smallest that gives no more
    than the number of parts asked for; joining corpora gives all their graph pairs in order of file name,
    with the meta-data of the first (so joining the parts gives the corpus again), and refuses corpora with other
    relations. Packing puts each corpus and graph bank used once into the archive, unchanged, refuses to
    let one file replace another of the same name, and the unpacked corpora can be read with relaxed paths. Extracting phrases lists
    exactly the phrases of every aligned node pair with its relation, for any delimiter and any text, and the input files are never changed.""",
  "inputs configurations",
  "all corpus sizes, part counts and options up to small bounds",
  "script tests only ask for help texts",
  ["bin/pgc_split.py", "bin/pgc_join.py", "bin/pgc_zip.py", "bin/pgc_extract_phrases.py"],
  [("scripts", "bin/")], module="c31_tools")

P("C32", "Torn files and failing input or output are noticed", """
    A corpus, parallel text corpus, source or target text, graph bank or statistics table of which only a first part is left
    (cut off at any byte before the end of its content) is refused with an error in every loading mode, never read as if
    it were complete (sparse loading may succeed if all graphs asked for lie before the cut); a graph bank whose loading failed can be loaded once the
    file is whole again. Scripts given such a file fail, and leave it and their other input files as they are. If a stream
    fails at any point of reading or writing, the error reaches the caller; after failed writing the corpus,
    text corpus, table, evaluation or compared corpora in memory are what they were, and can be written completely
    afterwards.""",
  "crash_points fault_sequences",
  "every prefix of small files of each kind, every single failing call of read and write (and pairs of consecutive failures)",
  "no test reads a damaged file or writes to a failing stream",
  [L + "pgc/corpus.py", L + "gb/parser.py", L + "gb/graphbank.py", L + "ptc/document.py", L + "stats/table.py",
   L + "utils/etree.py", "bin/"],
  [("readers and writers", "pgc/corpus.py PGCParser, PGCGenerator; gb/parser.py; ptc/document.py; stats/table.py; utils/etree.py write")],
  module="c32_faults")

P("C33", "Tools take their options in any form and refuse faulty command lines", """
    Whatever the combination of options, each tool gives the same output, files and exit status for every way to
    write the same command line: short, long or abbreviated option names, values joined or apart, flags
    written together, options in any order, before or after the file names; each option has its effect, a dry run changes no file,
    and being verbose changes nothing but messages. A command line without the file names or values it
    needs, with unknown or ambiguous options or values of the wrong kind, is refused with a usage message and a
    non-zero exit status, without output and without changing any file. Asking for help or the version succeeds and changes nothing.""",
  "inputs configurations",
  "all subsets of up to two (thorough: three) options of every tool in all orders, places and spellings; every faulty line of a complete family",
  "tests of the scripts only ask for help; the tests of the option parser know nothing of the tools",
  ["bin/", L + "utils/cli.py", L + "thirdparty/argparse.py"],
  [("option parser", "thirdparty/argparse.py"), ("tools", "bin/")], module="c33_cli")

P("C34", "Dialogues with child programs find the right output however it arrives", """
    Expecting strings or regular expressions finds the first match in the stream of a child's output (the first in
    the list among those at one place) as soon as the output read contains one, whatever the division of the output
    in reads; before, after and buffer account for every byte exactly once, the end of the output and the time
    limit are reported with all that was read, and reading by lines or sizes gives the same as for a file.
    Exit codes and signals of the child are reported exactly, ending it uses harsher signals only when asked
    and needed, and it gets exactly the bytes sent, logged alike. Command lines are split at
    blanks outside quotes and escapes, the first executable on the path is started, and a child's end or the escape key ends
    an interactive session.""",
  "schedules inputs fault_sequences",
  "all outputs up to length 5 (thorough: 7) in all divisions, all gaps and limits of time, interrupted calls, all exit statuses, ignored signals and command lines",
  "there is no test of this module: it needs terminals and processes, so that timing decides what is seen",
  [L + "thirdparty/pexpect.py"],
  [("search loop", "thirdparty/pexpect.py: spawn.expect_loop, searcher_string, searcher_re"),
   ("child processes", "thirdparty/pexpect.py: isalive, terminate, close, run, interact")], module="c34_expect")

P("C35", "The option parser gives every command line its documented meaning", """
    For every parser made of options and positional arguments of all kinds (stored, counted, appended and constant
    values, all numbers of values, types, choices, defaults, required and exclusive options, abbreviations, other
    prefixes, files of arguments, commands) and every command line, parsing either yields exactly the values the
    documentation gives it or refuses it. Nothing is dropped or assigned twice, values joined to an option mean
    the same as separate ones, `--` ends the options once, a complete name is never ambiguous, and parsing one command
    line leaves nothing behind for the next.""",
  "programs inputs",
  "all parsers of one or two options and up to two positional arguments of a pool of 22 and 12 kinds, all command lines up to length 2 to 5 (thorough: 6) over up to 25 words",
  "its tests give each parser a few command lines; the meaning of one depends on all arguments of a parser and all words of the line together",
  [L + "thirdparty/argparse.py"],
  [("parsing", "thirdparty/argparse.py: _parse_known_args, _get_values, _get_option_tuples")], module="c35_options")

P("C36", "Names and texts may hold any characters, in any locale", """
    Whatever characters the names of directories, files and graphs, node identifiers, tokens, remarks and arguments
    hold (blanks, quotes, mark-up, characters outside ASCII), every tool does the same as with plain ones: same exit
    status, same output and files but for those characters, encoded as UTF-8 even where the terminal knows ASCII only.
    A corpus or graph bank is the same whether its path is given as a byte or a unicode string, relative or absolute,
    from whatever working directory.""",
  "inputs configurations",
  "20 characters in 6 kinds of names alone and together (thorough: all pairs), 36 command lines of all tools, 20 ways to name a corpus",
  "the tests use plain names; a failure needs a byte string from the command line or the system to meet a unicode string from a file",
  ["bin/", L + "pgc/corpus.py", L + "gb/graphbank.py", L + "ptc/document.py", L + "stats/", L + "utils/opsys.py"],
  [("paths", "pgc/corpus.py: PGCReader, PGCGenerator; gb/graphbank.py; ptc/document.py"), ("tools", "bin/")], module="c36_names")

P("C37", "Any sequence of tools, edits and moves keeps pairs, graphs and alignments", """
    After every sequence of steps on a directory of corpora and graph banks (copying, overwriting, joining, splitting, packing,
    changing paths, editing alignments, deleting and adding pairs, writing absolute paths, moving files and directories), each
    corpus holds exactly the pairs, alignments and meta-data which those steps leave it, and refers to the same graph bank
    files. A step that needs graphs which are not there is refused and changes no file; graph banks are never changed.""",
  "histories inputs",
  "all sequences of up to 3 (thorough: 4) steps of 15 kinds on two corpora and three graph banks in two directories",
  "the tests run each tool once on a fresh corpus; a wrong path or a lost pair may show only after another tool has written the corpus",
  ["bin/", L + "pgc/corpus.py", L + "pgc/graphpair.py", L + "gb/graphbank.py"],
  [("reading", "pgc/corpus.py: PGCReader"), ("writing", "pgc/corpus.py: PGCGenerator"), ("tools", "bin/pgc_*.py")], module="c37_workflows")

CHECKS = dict((p["id"], dict(module=p["module"], assumptions=p["assume"],
                             workers=p["workers"] or {},
                             thorough_limit=p["thorough_limit"] or 6 * 3600))
              for p in PROPS if p["module"])
