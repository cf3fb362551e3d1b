"""What each check enumerates, against which oracle, within which bounds (source of DESIGN.md's
per-property part, of MANIFEST level notes and of the bounds in the evidence)."""
N = {}


def note(pid, technique, enum, oracle, bounds, reach, limits=""):
    N[pid] = dict(technique=technique, enum=enum, oracle=oracle, bounds=bounds, reach=reach, limits=limits)


DATA = "stateless model checking of the real code: exhaustive enumeration of bounded data sets and configurations, each execution judged by a reference model"
HIST = "explicit-state search over all operation histories of the real objects up to a depth, compared with a reference model after every step"
OPER = "stateless model checking of the real code: exhaustive enumeration of bounded operand spaces against a scalar reference"

note("P01", DATA,
     "`small`: every multiset of 1..5 rows over {3 numbers} x {3 categories} x {3 gradient levels}, 3 bin settings, with and without row sampling; `small_boost`: the same rows as data of real boosting with every loss, row and feature sampling; `edges`: values on and one ulp around every bin edge of 12 ranges; `edge_rows`: seven values around each of the 513 edges of 5 ranges with all 2^7 gradient combinations; `blocks`: block-structured columns of 250..2561 rows, widths 1/2/4/8, several compressions; `hicard`: all 3^6 gradient assignments of high-cardinality columns with categories missing from the sample; `wide`, `big_boost`: many columns / losses / sampling schemes.",
     "a scripted objective (`Spy`) gives every fitted leaf a distinct value and records the rows it was fitted on: each sampled row must be in exactly one leaf and be predicted that leaf's value; each left-out row must be booked once with its own prediction. Boosted runs: `predictions()` of the trainer == `AdditiveTree::predict` bit for bit.",
     "multisets up to 5 rows (thorough 6), the listed ranges, depth <= 6",
     "tests train on one fixed CSV and print; nothing compares training routing with prediction routing, which only disagree for particular values (bin edges), samples or compression states.")
note("P02", DATA,
     "`small`: all multisets of 1..5 rows over 3 numbers x 3 categories x 4 gradient levels x 27 settings of lambda / min_examples_leaf / min_gain; `truth_table`: three binary features, every assignment of 4 gradient levels to the 8 cells (1/8 of them per setting in the quick tier, all in thorough), widths 1/2/4/8, depths 1..3; `off_level`: gradients between and beyond the levels, six bounds; `sampled`: row and feature samples, refreshes; `blocks`/`wide`: up to 4100 rows, derived and compressed nodes six levels deep, many columns.",
     "tree and leaf row sets are recovered from the run; at every node all admissible candidates of the active features are evaluated from scratch in f64 from the rows' own discretised gradients; the chosen one must be at least as good as all others up to a bound on f32 rounding computed per node; nodes are split iff depth allows and some gain exceeds min_gain.",
     "rows <= 5 exhaustively (6 thorough), structured up to 4100 rows, depth <= 6",
     "a wrong histogram subtraction, a skipped bin or a wrong tie/limit shows only for particular gradient layouts; tests check one hand-made tree.",
     "ties between equal gains are left open (any best candidate is accepted)")
note("P03", DATA,
     "`lanes`: 9/16/19 blocks of 32 rows in eight lanes, every assignment of split patterns per lane (1/32 of the combinations in quick, rotating with the other choices; all in thorough); `nested`: every level of the tree cuts the remaining blocks again in ratios 2,3,4, up to 257 blocks; `blocks`: structured data up to 9000 rows; `boosted`: 5 losses with sampling. Each with thresholds {0, .., 2} against no compression.",
     "differential: node ids, row sets, leaf values and predictions must be identical bit for bit to the run with a threshold that never compresses.",
     "up to 9000 rows, depth <= 7, 1/2/4/8 bits",
     "compression is decided per node from the zero-block ratio; tests never compress a compressed node.")
note("P04", OPER,
     "`position`: every length up to 36 blocks, every row, the full truth table of the three operands on empty and full backgrounds; `column`: the carry-save adder tree: all 2^16 inputs of one 16-block round after each of 17 carry states, toggled through value, node mask or feature mask; `allcols`: every bit column with all pairs of deviations over two rounds and a remainder; `indexmap`: every entry of the block index pointing at every block; `merge`: all pairs of sets of non-empty blocks for both sides compressed; `large`: sizes 2^k-1, 2^k, 2^k+1 blocks up to 2^19 (plain counts: 134 million rows) with 13 mask patterns; `block_sums`, `or`.",
     "integer sums bit by bit, for the pooled and the owned containers.",
     "widths {count,1,2,4,8} x {plain, one side compressed, both}; lengths <= 2^19 blocks",
     "SIMD reduction trees fail for single lanes, carries or lengths; tests use a few random vectors.")
note("P05", OPER + "; operation sequences up to length 3",
     "every single operation at every position and all sequences of two/three at word boundaries on blocks, bit vectors, bit sets; every constructor for every length up to 600 bits (fresh vectors 1100; thorough 2100); every write of every value class at every position of packed vectors of 5 lengths x 4 widths x 3 backgrounds; every (source, destination) block of block copies; resizes.",
     "plain `Vec<bool>` / `Vec<u8>`; after each write all other positions are compared through every read path (bits, 8/16/32/64 bit views, packed reads).",
     "lengths <= 1100 bits (2100), 3 operations",
     "tests read back what they wrote and do not look at the neighbours.")
note("P06", OPER,
     "`combos`: all 4^8 combinations of bit and mask bit at eight word-boundary positions; `dense`: every word one of eight patterns; `single`: one set bit anywhere, mapped to every block; `lengths`: 1..40 blocks; every stopping position of the visitors.",
     "list comprehension over all positions.",
     "1..3 blocks exhaustive, 40 (80) blocks structured",
     "tests iterate over a handful of vectors.")
note("P07", HIST,
     "all histories of alloc(len)/write/free/borrow-two/reset up to depth 8 (6..8 by type; thorough +1) over 3-4 lengths and several initial capacities for f32, u64, u8, (u32,u32), (f32,u64) with and without alignment; `free_lists`: five slices, all 32 subsets freed, re-allocations of other lengths; histogram sets (alloc, write, subtract, reset) up to depth 8; bit blocks of all construction kinds on dirty memory; all-ones vectors of every length up to 1100 bits; `many`/`many_hists`: up to 1025 (4100) slices and 200 (500) histogram sets at once, 5 length patterns x 7 patterns of freeing x with and without reset, four rounds; `huge`: every sequence of three requests from 1 to 1 (3) million elements.",
     "plain vectors per live slice: contents, length, alignment, disjointness of the address ranges; histograms compared entry by entry. Red zones and a poisoning allocator watch the memory outside.",
     "depth 8 with <= 8 live slices; structured histories of up to 1025 (4100) slices",
     "aliasing appears after particular free/alloc orders; tests allocate a few slices.")
note("P08", OPER,
     "`every_float`: all finite f32 bit patterns (quick: every 512th mantissa and 512 ulps around chunk ends; thorough: all 2^32) stored and read; `grid`, `fixpoints`, `projection`, `sums_of_levels` (all multisets of levels), `masked_sums`, `degenerate` bounds; `magnitudes`: bounds of every binary exponent, from subnormal differences to the largest.",
     "nearest level in f64 with an ulp-sized tolerance at midpoints; monotonicity along the sorted inputs; sums of real levels.",
     "10+ bounds x 4 widths",
     "rounding errors at clamps and midpoints occur for isolated floats.",
     "values within rounding distance of a midpoint may go to either neighbour")
note("P09", OPER,
     "all values on and around every edge of every bin for many limits (24, from denormal widths to the whole range of floats) and bin counts; all bin contents with up to 6 (8) bins and all ascending rank sequences; 512 and 1024 bins with few occupied ones everywhere.",
     "scan of cumulative weights; monotone assignment; distance to the representative of the bin.",
     "bins <= 1024, weights small",
     "rank sequences resume a scan; off-by-one errors need particular content/rank pairs.")
note("P10", DATA,
     "all target and score vectors of up to 3 rows over 7 values (4-5 labels for the classifications), all alphas / bounds; exact hinge margins; blocks of up to thousands of rows through several updates; reuse of one objective for another problem.",
     "f64 formulas of the losses; the documented start values and bounds.",
     "n <= 3..5 exhaustively",
     "sign, clipping and degenerate cases occur for particular residual patterns.",
     "medians/quantiles of l1/huber are compared within one bin of the 1024 bins")
note("P11", HIST,
     "all targets and score offsets of up to 3 (4) rows, all partitions of the rows into two leaves and left-out rows, the leaves fitted one after the other on the same gradients, then out-of-sample updates; larger leaves in strided row patterns through several rounds.",
     "f64 leaf formulas per loss; every score compared after every call.",
     "n <= 3 (4) exhaustively, n <= 1500 structured",
     "booking errors show only on rows outside the leaf and on the second leaf.")
note("P12", OPER,
     "all score/label vectors up to 3 rows over special values; every length up to 300 (1100) with an odd row at every position; all permutations of 4 rows; all 2^k letter cases of every name; all one-edit variants of names and all strings up to length 3 over their letters.",
     "f64 definitions; the documented set of names.",
     "n <= 3 exhaustive; 300 (1100) lengths",
     "chunked or skipped rows need particular lengths.")
note("P13", DATA,
     "all small tables (1-3 columns, 0-3 records) over an alphabet of up to 20 cells x header kinds x delimiters x line ends x categorical settings; every column name of up to 4 (5) characters over 12 special ones, quoted and unquoted, with three delimiters; cells with characters that other formats treat specially (#, //, quotes, blanks); all texts up to 7 (8) characters over 9 characters; a deviating record at every place of tables of many shapes; sizes around all buffers from slices, files, trickling and failing readers; 18 000 decimal notations; texts at and right beside the middle between neighbouring floats.",
     "independent record splitter; exact decimal-to-f32 via Rust's parser; min/max/cardinality recomputed.",
     "texts <= 7 (8) characters, tables <= 3x3 exhaustive",
     "silently dropped or shifted records need particular shapes of text.")
note("P14", HIST,
     "all sequences of 3 (4) column writes (valid, rejected, categorical, numerical) into 1-2 columns + target; all fill orders after overwriting each column with contents of every other kind; two data sets filled alternately.",
     "the data set loaded from CSV with the final contents: all accessors and the trained model.",
     "3 (4) writes",
     "stale metadata survives only particular overwrite sequences.")
note("P15", HIST,
     "every field x 60+ value spellings x record spellings; all sequences of 4 (5) records over 26; all one-edit variants of names; all lines up to 7 (8) characters over the record syntax and up to 5 (6) over characters special to other formats (# ; % \\ \" /); the shipped and generated parameter tables.",
     "reference parser and defaults written from the documentation; all fields compared after every record.",
     "4 (5) records",
     "cut-off values and cross-talk between fields need particular values.")
note("P16", "explicit-state exploration over all outcomes of the random generator (the generator is replaced by choice points, joint probabilities are computed exactly)",
     "the library is built against a stand-in for `rand` whose bounded draws are choice points of the explorer, so that *every* outcome of the generator is visited with its exact probability: all data sets of up to 7 (8) rows x fractions x refresh schedules over up to 3 refreshes (`dataset`), whole trainings (`training`), which feature is split on (`feature_use`). `seeds`: the library's own generator for seeds and sizes up to 4097 rows. `seed_frequencies`: every seed of a range. `row_frequencies`/`feature_frequencies`: data of up to 9000 rows and 1200 features over the first 1 500 (20 000) seeds: how often each row, neighbouring and distant pair, block of rows and feature is drawn, and how much two refreshes share (eight standard deviations; these cover sizes the outcome trees cannot reach). `many_rows`: up to 150 011 (1 000 003) rows, one training after another: the share of every stretch and residue class of rows, pairs at eleven distances, overlap of consecutive samples.",
     "exact probability of each (sequence of) sample(s) = product of uniform ones; sample sizes, order and complement; schedule.",
     "outcome trees up to 6 000 (60 000) leaves per case",
     "bias cannot be seen by any number of sampled runs of a unit test; here the distribution is computed, not estimated.")
note("P17", DATA,
     "all multisets of 1..5 rows over 5 numbers x 8 kinds, with gradients; columns of up to 1500 rows of 10 kinds with 7 gradient patterns, fractions, refresh frequencies; all assignments of means and counts to 3..5 (6) categories; all histories of 4 (6) updates with changing gradients, samples and schedules.",
     "candidate row sets recomputed from the data; weighted quantiles in f64 with a tolerance of two of 512 bins; order of categories by mean gradient up to one bin.",
     "n <= 5 exhaustive, <= 1500 structured",
     "stale or mis-indexed candidates appear after refreshes only.")
note("P18", "preemption-bounded exploration of all schedules of the parallel histogram tasks under a controlled scheduler (shuttle runtime, own DFS scheduler), on the instrumented real code",
     "the library's sources are instrumented at build time (tools/instrument.py; a copy outside /repo) so that rayon's `join` is a stand-in with real work stealing under a controlled scheduler and every shared access in src/tree/learner.rs is a scheduling point. All steal patterns up to 3 (5) steals, all schedules with one preemption and up to 2 (4) steals, two (three) preemptions on the small cases, 2-3 workers, several data sets and losses, some with features that split equally well but differently. `at_once`, `at_once_switching`: two trainings (equal, or of different data and losses) in two threads that share the pool, every schedule with one preemption, and with two (three) on the smallest cases. A second part runs the real thread pool with 1..8 threads.",
     "model and scores equal the sequential run (alone) bit for bit; no deadlock, no lost task.",
     "preemptions <= 2 (3), steals <= 3 (5), workers <= 3",
     "a run of the tests sees one schedule.",
     "sequential consistency is assumed; if the instrumented build does not compile after a change of the sources, only the second part decides (the run says so)")
note("P19", HIST,
     "all sequences of 4 (5) of 20 C calls on one context from 5 starting states; all interleavings of 3 (4) calls on two contexts from 25 pairs of states; all fields x values through the interface; `threads`: every assignment of the calls of a history to the caller's thread, two other lasting threads and a new thread; sizes.",
     "reference state machine; the native library for models and predictions; canary values behind the output buffer.",
     "4 (5) calls / 3 (4) calls on two contexts",
     "the interesting states are reached by particular call orders.")
note("P20", HIST,
     "all trees of depth <= 2 over an alphabet of criteria and all group maps, evaluated on all rows of interesting values; all histories of 5 (6) split/set calls, legal and illegal; all ensembles of up to 3 (4) trees with dyadic parameters; chains down to depth 20; 66 000 trees; `sizes`: every number of rows up to 70 (300) and around every power of two up to 65537 (100 000) with up to 257 trees; trees that were never split; `wide`: categories up to 65535, groups up to 65536, thresholds over all magnitudes, features up to 66 001.",
     "a reference tree; exact dyadic arithmetic.",
     "depth <= 2 exhaustive, 10 structured",
     "routing of unknown groups, equal values and illegal splits needs particular trees.")
note("P21", DATA,
     "all small data sets (<= 4 rows (5)) for every loss: every prefix; larger data with up to two (three) changed settings; loss after every one of up to 20 (60) iterations.",
     "prefix runs: predictions bit for bit; squared loss in f64 non-increasing up to rounding.",
     "n <= 4..5 exhaustive",
     "a late iteration influencing earlier state is visible only by comparing two runs.")
note("P22", DATA,
     "all data sets of <= 3 rows over extreme alphabets x pairs of settings; triples (quadruples) of settings on degenerate data; column shapes x target shapes x 14 row counts; magnitudes 1e-30..1e15; cardinalities 1..65000; 500 (4000) iterations; wide data, up to 66 003 columns.",
     "no panic (debug assertions and overflow checks on), all scores, gradients and predictions finite.",
     "see enumeration",
     "the failing inputs are corner cases; 7 of the repaired defects were found here.",
     "hinge with learning rate > 0.25 is a known finding")
note("P23", DATA,
     "the built binary is run for every mode x loss x settings (pairs; thorough triples), metric lists x frequencies x iterations, file formats and argument spellings, one wrong argument or file at every place; `surroundings`: logging variable, number of pool threads, locale, relative paths and working directory; up to 20 000 rows and 60 features.",
     "the library called with the same records; every printed number is compared.",
     "two deviations (three)",
     "no test runs the tool.")
note("P24", HIST,
     "the Python package of the tree runs on the freshly built shared library: all kinds of arrays (dtype x layout) for X, y and the prediction rows; every parameter and value alone and in pairs through four routes; numbers of many digits on targets small enough for them to matter; all histories of 4 (5) estimator and 3 (4) raw calls; histories of 4 (5) calls in which the caller changes its own arrays and lists in place; wrong lengths; `large`: 70 001 rows, 260 and 1030 columns, generated in Python.",
     "native predictions bit for bit; exceptions where the library refuses.",
     "4 (5) calls",
     "no test covers the package.",
     "scikit-learn is not installed: its two base classes are replaced by stand-ins with the documented get_params/set_params behaviour")
note("P25", HIST,
     "all histories of 4 (5) trainings, predictions, releases; all pairs of problems for a reused objective; sequences of trees with shared learner resources; several fill patterns of fresh memory; `logged`: a listener for messages of each of six levels, settings x losses x kinds of columns; `threads`: histories of trainings and predictions distributed over four threads in every way; constant columns and names in every place; repetition over pairs of settings.",
     "the same training alone, bit for bit.",
     "4 (5) operations",
     "hidden state is visible only across runs.")
note("P26", HIST,
     "`contexts`: every sequence of 4 (5) of 13 calls (settings, refused settings, refreshes of two sizes, columns, refused columns, training, prediction) from three starts on a context that is then released; `replaced`: every sequence of 3 (4) of 12 calls repeated on a context that stays alive, failing trainings included; `library`: data, trainer, learner resources and model for every loss with any two (three) settings changed; `failing`: ten kinds of failing calls with the fault at every third; `iterations`: 10, 20, 40, 80 iterations of every loss, samples, refresh frequencies, metrics; `trees`: 280 or 840 equal trees with the same resources at four widths and compressions; `nodes`: full trees of depth 2, 5, 8, 11 at four widths; `pools`: every pattern of four request sizes, freed in three orders or reset, 560 times; `python`: twelve uses of estimators and raw objects of the package with two table sizes, 50 (100) times each; `updates`: every sequence of 3 (4) of six gradient patterns on one data set, 336 times; `loading`: data sets of 1 to 40 000 rows and 1 to 40 columns, cells of 1, 8, 40 characters, from calls, slices, readers and files; `linear`: memory of a training for 1, 2, 4, 8 times the rows or columns.",
     "an allocator that counts the bytes in use and their maximum: each cycle is repeated 14 times; if the minimum of the last six exceeds that of the six before by 256 bytes, it must do so again after 40 and after another 160 repetitions to count as a leak; peaks during training minus the bytes of the model must stay below a bound independent of iterations, and below one histogram set and mask for every pending node of the path; the resident memory of the Python process must not grow by half a column per use in three rounds of 50 (100) uses.",
     "see enumeration",
     "a leak changes no result.",
     "a one-off cache that stops growing is allowed; leaks of less than 43 bytes per cycle are not reported")

note("P27", "stateless model checking of the real code under memory monitors: exhaustive enumeration of bounded operation histories, operands and training problems, each executed in Miri (an interpreter that tracks initialisation, bounds, provenance, alignment and the happens-before order of every access) and, over larger ranges, natively under AddressSanitizer",
     "`blocks`: every constructor of block vectors and sets x lengths, all typed views, growing and shrinking; `outside`: sixteen checked accessors at indices just and far outside; `pools_*`: every history of 5 (7 native) allocations, releases, resets and growth of pools of four element types, capacities and alignments, with all pairs borrowed at once; `histograms`: every history of 4 (6) operations on six layouts; `block_pools`: every history of 3 (5) kinds of vectors; `iterate`: index iterators and visitors x lengths, patterns, maps; `bitslices`: values of four widths x lengths; `kernels`: every counting and summing kernel x width x length x compression, with each operand alone in an allocation of exactly its size; `bins`; `calls`: every sequence of C calls of 2 (3) operations from three starts with buffers of exactly the size of a column; `texts`: small tables with ragged ends; `datasets`, `training`: rows x widths x column shapes x six settings x losses, prediction for other rows; `threads`: two and three workers.",
     "the monitors: a read of memory that was never written, an access outside of an allocation or after its release, a misaligned access, a second release, a release with another layout, a data race ends the execution; the families make no statement on values. The library is compiled without debug assertions, as delivered. A panic is an answer here.",
     "Miri: lengths 1..1025 bits around the boundaries, 1..19 blocks, training with 1..300 rows (a tenth of the grid, a third in thorough); native: lengths to 1300 bits, 70 blocks, 1500 rows, all of the grid",
     "an access past the end usually changes nothing that a test can see, and the tests run without a monitor.",
     "Miri without Stacked Borrows (it objects to a dependency) and with one schedule per execution; uninitialised memory is only seen by Miri")

# Sizes beyond the small integer types and block sizes of the implementation.
SCALE = {
    "P01": "`scale`: up to 150 000 (300 000) rows, trees of depth 16 (17), 1100 (66 000) iterations; 66 003 columns with the informative ones around the 16 bit limit and at the end; trees that really are 16 to 20 levels deep.",
    "P02": "`scale`: tens of thousands of rows; the rounding bound includes what derived histograms inherit from all their ancestors; 66 003 columns.",
    "P03": "`scale`: row counts beyond 65 536.",
    "P05": "lengths beyond 65 536 for constructors and fresh vectors.",
    "P06": "`large`: vectors of many thousand blocks, with set blocks everywhere and far apart.",
    "P08": "`large`: packed columns and sums of more than 65 536 values.",
    "P09": "`large`: weights and counts beyond 65 536; rank queries also checked with float weights and at the end of the content.",
    "P10": "leaves of 20 000 and 70 000 rows (300 000 and 1.2 million).",
    "P11": "leaves of 12 000 to 140 000 (600 000) rows, sums of small and large targets.",
    "P12": "`ranges`: scores from -42 to 42 and over all decades, 70 000 and more rows.",
    "P13": "`huge`: texts of many MiB, more than 65 536 rows and columns, from slices and readers.",
    "P14": "`large`: 1030 columns, 66 001 rows (131 101; 300 x 300), written in several orders, once or twice.",
    "P15": "`long`: values, lists, blanks and digits of up to 300 001 characters or elements in front of, behind and between other records; up to 1001 (5000) records of one field.",
    "P16": "`long`: 66 000 updates in a row with several sampling frequencies.",
    "P17": "`scale`: 20 011 and 70 001 (150 011) rows, 3 to 300 bins.",
    "P19": "`large`: 70 003 rows, 1100 features; `many`: up to 1030 contexts alive at once, one context used 1030 times, released in several orders.",
    "P21": "`scale`: 258 and 1100 (5000) iterations, 20 000 and 70 000 rows.",
    "P22": "`large`: 33 001 and 70 003 (210 009) rows, depth up to 10.",
    "P23": "`iterations`, `calls`: up to 1030 iterations with frequencies around 256; 70 003 rows printed.",
}
for _p, _t in SCALE.items():
    N[_p]["enum"] = N[_p]["enum"].rstrip().rstrip(".") + "; " + _t
