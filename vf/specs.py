"""Library variants (capacities, sanitizers) and the check of every property."""
SMALL = {"CONCEPTS_MAX": 64, "ATOMS_MAX": 1024, "CYCLING_GOAL_EVENTS_LAYERS": 4, "CYCLING_GOAL_EVENTS_MAX": 8, "CYCLING_BELIEF_EVENTS_MAX": 8, "OPERATIONS_MAX": 3, "TABLE_SIZE": 3}
VARIANTS = {
    # pure functions: original limits except that stores no check here touches are small
    "std": {"defs": {"CONCEPTS_MAX": 64}},
    "oti4": {"defs": {"CONCEPTS_MAX": 64, "OCCURRENCE_TIME_INDEX_SIZE": 4}},
    "small": {"defs": SMALL},
    "tiny": {"defs": {"CONCEPTS_MAX": 4, "ATOMS_MAX": 128, "CYCLING_GOAL_EVENTS_LAYERS": 3, "CYCLING_GOAL_EVENTS_MAX": 2, "CYCLING_BELIEF_EVENTS_MAX": 2, "OPERATIONS_MAX": 2, "TABLE_SIZE": 2, "OCCURRENCE_TIME_INDEX_SIZE": 4}},
    "atiny": {"defs": {"CONCEPTS_MAX": 8, "ATOMS_MAX": 256, "CYCLING_GOAL_EVENTS_LAYERS": 3, "CYCLING_GOAL_EVENTS_MAX": 3, "CYCLING_BELIEF_EVENTS_MAX": 3, "OPERATIONS_MAX": 2, "TABLE_SIZE": 2, "OCCURRENCE_TIME_INDEX_SIZE": 4}, "cflags": ["-fsanitize=address"], "opt": "-O1"},
    "mid": {"defs": {"CONCEPTS_MAX": 16, "ATOMS_MAX": 256, "CYCLING_GOAL_EVENTS_LAYERS": 3, "CYCLING_GOAL_EVENTS_MAX": 4, "CYCLING_BELIEF_EVENTS_MAX": 4, "OPERATIONS_MAX": 2, "TABLE_SIZE": 3}},
    "learn": {"defs": {"CONCEPTS_MAX": 64, "ATOMS_MAX": 256, "CYCLING_GOAL_EVENTS_LAYERS": 3, "CYCLING_GOAL_EVENTS_MAX": 4, "CYCLING_BELIEF_EVENTS_MAX": 8, "OPERATIONS_MAX": 3, "TABLE_SIZE": 32}},
    "relate": {"defs": {"CONCEPTS_MAX": 512, "ATOMS_MAX": 256, "CYCLING_GOAL_EVENTS_LAYERS": 3, "CYCLING_GOAL_EVENTS_MAX": 4, "CYCLING_BELIEF_EVENTS_MAX": 48, "OPERATIONS_MAX": 3, "TABLE_SIZE": 64}},
    "goal": {"defs": {"CONCEPTS_MAX": 128, "ATOMS_MAX": 512, "CYCLING_GOAL_EVENTS_LAYERS": 3, "CYCLING_GOAL_EVENTS_MAX": 6, "CYCLING_BELIEF_EVENTS_MAX": 8, "OPERATIONS_MAX": 3, "TABLE_SIZE": 10}},
    "goal3": {"defs": {"CONCEPTS_MAX": 128, "ATOMS_MAX": 512, "CYCLING_GOAL_EVENTS_LAYERS": 3, "CYCLING_GOAL_EVENTS_MAX": 6, "CYCLING_BELIEF_EVENTS_MAX": 8, "OPERATIONS_MAX": 3, "TABLE_SIZE": 10, "MAX_COMPOUND_OP_LEN": 3, "COMPOUND_TERM_SIZE_MAX": 256, "NARSESE_LEN_MAX": 9000}},
    "midt": {"defs": {"CONCEPTS_MAX": 16, "ATOMS_MAX": 256, "CYCLING_GOAL_EVENTS_LAYERS": 3, "CYCLING_GOAL_EVENTS_MAX": 4, "CYCLING_BELIEF_EVENTS_MAX": 4, "OPERATIONS_MAX": 2, "TABLE_SIZE": 3, "BELIEF_CONCEPT_MATCH_TARGET": 2}},
    # the network service's own accesses to memory are reported to the scheduler in the harness (no library behind these calls)
    "net": {"defs": {"CONCEPTS_MAX": 8, "ATOMS_MAX": 128, "CYCLING_GOAL_EVENTS_LAYERS": 3, "CYCLING_GOAL_EVENTS_MAX": 3, "CYCLING_BELIEF_EVENTS_MAX": 3, "OPERATIONS_MAX": 2, "TABLE_SIZE": 2, "OCCURRENCE_TIME_INDEX_SIZE": 4}, "netflags": ["-fsanitize=thread", "--param=tsan-distinguish-volatile=1", "-fno-inline"]},
    "asmall": {"defs": SMALL, "cflags": ["-fsanitize=address"], "opt": "-O1"},
    "asan": {"defs": {"CONCEPTS_MAX": 64}, "cflags": ["-fsanitize=address"], "opt": "-O1"},
}
SPECS = {}
def S(id, **k):
    SPECS[id] = k

S("P01", harness="p01_pq.c", variant="std", shards=8,
  rule="every state = content of the buffer up to order isomorphism of priorities; every transition = one real push (each relative rank), pop-min, pop-max or rebuild, compared with an ideal priority buffer; non-trivial = distinct canonical states",
  bounds=["capacities 1-8 with arbitrary priority orders, rebuild from all weak orders of up to 7 entries, capacities 12/16 with 3/2 distinct priorities, to fixpoint", "capacities 1-10, rebuild up to 8, 12/16 as quick, to fixpoint"],
  assumptions=["the implementation inspects priorities only by comparison and addresses not at all, so order-isomorphic contents behave alike"])

S("P02", harness="p02_map.c", variant="small", shards=8,
  rule="states = complete memory images of the table reachable by set/overwrite/delete of present keys; after every transition all keys are looked up and compared with a plain map",
  bounds=["4 hash functions (all-colliding to spread), 1-3 buckets, capacities 1-4 with one more key than fits, fixpoint; all push/pop words of length 12 of the recycling stack; 824 atom names", "capacities up to 6, fixpoint"],
  assumptions=["keys deleted are present (the stated contract); insertions beyond the stated capacity are outside the contract"])
S("P06", harness="p06_recency.c", variant="oti4", shards=8,
  rule="all words of insertions over 3 concepts; every k-th newest entry compared with the history after every insertion",
  bounds=["capacity 4, all 3^12 insertion words of length 12", "capacity 4, all 3^15 words of length 15"])
S("P07", harness="p07_stamp.c", variant="std", shards=8,
  rule="all ordered pairs of identifier words (repeats included) plus every pair of lengths with one shared identifier at every position pair; non-trivial = overlapping but not the same evidence",
  bounds=["words up to length 4 over 4 identifiers, lengths 0-10 at the boundary", "words up to length 4 over 5 identifiers"])
S("P08", harness="p08_truth.c", variant="std", shards=8,
  rule="every pair of truth values of a grid with the extremes, under every truth function and revision, and every projection distance; non-trivial = results with positive confidence and frequency strictly between 0 and 1",
  bounds=["24 frequencies x 24 confidences (both premises), 4 evidential horizons, 4 decays, distances -60..60", "44 x 44 grid"],
  assumptions=["premise confidences in (0,1), the range the reasoner admits", "between the grid points the functions are the closed formulas compared at the grid points"])
S("P05", harness="p05_table.c", variant="small", shards=40,
  rule="all words of add-and-revise / add / remove over 5 terms, 4 truth values with tied and distinct expectations, each entry with its own evidence, offset and creation time; the whole table compared with a reference list after every operation; non-trivial = operations on a full table or on a present term",
  bounds=["capacity 3, all words of length 5", "capacity 3, all words of length 6"],
  assumptions=["the table treats positions below its capacity uniformly, so capacity 3 stands for 20"])
S("P03", harness="p03_atomindex.c", variant="tiny", shards=16,
  rule="all words of add/remove (present or not) over 6 concepts sharing atoms (atomic, repeated, nested, operator, variable); all chains of all atoms compared with the set of indexed concepts after every operation; 216 words repeated 600 times for recycling; non-trivial = operations that change the content",
  bounds=["all words of length 5", "all words of length 6"],
  assumptions=["a concept is removed with the term it was added with (stated use)"])
S("P10", harness="p10_term.c", variant="std", shards=16,
  rule="all trees of depth <= 3 over two labels written at and read from every one of the 64 positions of hosts reaching it (position empty or an atom), all pairs compared under all combinations of prior hashing and construction; non-trivial = accepted writes of compound subterms",
  bounds=["422 subterms, 203 hosts, 4 hash states; 422 x 422 pairs x 3 constructions x 4 hash states"],
  assumptions=["terms are written at places that are empty or hold an atom (as all callers do)"])
S("P11", harness="p11_narsese.c", variant="small", shards=32,
  rule="every term tree written in every notation and read, compared with the tree's own encoding; printed and read back; non-trivial = compound terms within the size limit",
  bounds=["all trees of depth <= 2 over 27 connectors/sets/unary forms and 3 leaves (3 notations; 5 for 2 leaves), depth 3 over 8 connectors, 12 kinds of atoms, atom lengths 1-31, chains of depth 3-8 in every direction", "as quick with 4 leaves and more notations"],
  assumptions=["products, sets and operators in the binary forms the documentation uses"])
S("P14", harness="p14_normalize.c", variant="small", shards=32,
  rule="every filling of 16 term shapes (1-6 places) with constants and variables of all kinds and names, 12 renamings each; up to ten variables per kind; renamed statements in the reasoner; non-trivial = fillings with variables",
  bounds=["10 names for up to 4 places, 7 names for 6 places, 12 renamings of each"])
S("P15", harness="p15_unify.c", variant="small", shards=32,
  rule="all pairs of general and specific trees, ordinary and query-only, compared with a reference matcher (success, every binding, substituted term); bindings applied to terms with the variable at every depth; non-trivial = successful matches",
  bounds=["depth <= 2 over 4 leaves on each side and 4 connectors, 4 larger frames with 5^4 fillings on both sides, values and places of depth 0-5", "5 connectors"],
  assumptions=["terms are arity-proper, as the reader builds them", "measured numeric values (similarity of numbers) are a separate feature and not used here"])
S("P16", harness="p16_varintro.c", variant="small", shards=32,
  rule="variable introduction applied to every statement of the space; every changed place examined; non-trivial = statements that are changed",
  bounds=["18 plain statements over 3 constants in all pairs, triples and quadruples (last one of 9 inheritances), 32 richer components in all pairs, triples and quadruples, extensional and intensional, all product sides"],
  assumptions=["for component statements other than plain inheritance and similarity the set of generalised constants is not prescribed, only that the result is a generalisation"])
S("P12", harness="p12_sentence.c", variant="small", shards=32,
  rule="every combination of term, mark, tense, truth notation and dt prefix given to a fresh reasoner; the registered belief, observation, goal or hypothesis, the echo and the time are compared with what is written; non-trivial = sentences with a checked outcome",
  bounds=["24 terms x 3 marks x 4 tenses x 12 truth notations x 5 dt prefixes; 72 sentences followed by 54 others without reset"],
  assumptions=["goals for the past or future are not specified", "confidence above the maximum is registered as the maximum"])
S("P13", harness="p13_lines.c", variant="asmall", shards=64, opt="-O1",
  rule="every line of the space is given to the shell's line interface in an exactly sized buffer under AddressSanitizer; non-trivial = distinct outputs",
  bounds=["token strings of length <= 3 (48 tokens, 7 sentence endings) and half of length 4; characters: strings of length <= 3 (40 characters); 18 sentences with every single-token edit and every deletion after it; 28 repeated units around every limit in 20 contexts; 33 commands x 46 arguments x 5 histories",
          "all token strings of length 4 with and without spaces, character strings of length 4, all double edits"],
  assumptions=["line lengths up to the reader's limit + 60, so that fixed line buffers of the callers are outside", "AddressSanitizer detects accesses outside objects (red zones), not within"])
S("P04", harness="p04_memory.c", variant="tiny", shards=64,
  rule="every input history over 14 lines (more terms than concepts fit), every periodic history, every word of concept creation, use and forgetting; after every step concept store, lookup table and atom index are compared, and every creation of a concept within a step is observed (what is displaced, what it contains); non-trivial = creations that displace a concept",
  bounds=["4 concepts: histories of length 5 (and 4 from a full memory), periods up to 3 over 40 steps, direct words of length 6 over 7 terms", "lengths 6 / 5 / 7, periods up to 4"],
  assumptions=["4 concepts stand for 16384: the code treats positions below the capacity uniformly"])
S("P28", harness="p28_bounded.c", variant="atiny", shards=128, opt="-O1",
  rule="every input history over eight alphabets and every periodic history, with and without babbling, under AddressSanitizer with internal checks observed; after every step all stores are examined; non-trivial = steps with full memory and full event buffer",
  bounds=["8 concepts, 3 events, 2 hypotheses per table; histories of length 5 (4 with babbling), periods up to 3 over 90 steps", "length 6 (5), periods up to 4 over 200 steps"],
  assumptions=["small stores stand for the configured ones; the code treats positions below capacity uniformly"])
S("P31", harness="p31_forget.c", variant="mid", shards=64,
  rule="around every step of every input history over two alphabets and every periodic history the priorities of all buffered events and concepts are compared with decay, selection of the best, displacement of the worst and use; non-trivial = steps in which an entry left a buffer",
  bounds=["16 concepts, 4 belief events, 4 goals per layer; histories of length 6, periods up to 4 over 40 steps", "length 7, periods up to 5"])
S("P09", harness="p09_evidence.c", variant="small", shards=64,
  rule="A: all words of items about one statement with equal, overlapping and disjoint evidential bases, eternal and as observation, against the reference of pooling and choice; B: after every step of every history over four alphabets (inheritance, implication, compound, equivalence) no held item weighs more than the inputs in its evidential base; C: independent repetitions accumulate exactly; non-trivial = items resting on several inputs",
  bounds=["28 items, words of length 4; 7-8 inputs, histories of length 5, periods up to 3 over 9 steps; accumulation histories of length 7", "lengths 5 / 6, 4 / 8"],
  assumptions=["hypothesis tables (not beliefs) revise without this restriction, see DESIGN.md", "at most ten inputs per history, so that no base is truncated"])
S("P20", harness="p20_belief.c", variant="small", shards=64,
  rule="all orders of eternal, present, past and future items (two truths, four evidential bases) about one statement, with time passing; observation, prediction and general belief compared with the reference after every item; the same through input lines and reasoning steps with the processed events observed; non-trivial = pooled items",
  bounds=["53 items on one statement, words of length 3; 12 items on four kinds of statements, words of length 4; 9 input lines, histories of length 6", "lengths 4 / 6 / 8"])
S("P17", harness="p17_rules.c", variant="small", shards=64,
  rule="every premise pattern of every declared rule (and 50 further shapes), with one part optionally compound, in every identification of the parts of both premises; the conclusions (term, truth, variable introduction) are compared as sets with the declared rules and reductions; the same for the inference step with variable elimination in six constellations of times and evidence; non-trivial = premise pairs with conclusions",
  bounds=["pairs of shapes with up to 7 parts together (compound parts: up to 4), all restricted growth words; 3 truth pairs up to 5 parts", "8 parts"],
  assumptions=["rules inspect parts only by equality, so identifications of parts cover all instances", "heuristic filters which drop a licensed conclusion are only required to keep first-order conclusions with distinct constants"])
S("P18", harness="p18_stamp.c", variant="mid", shards=64,
  rule="every input history over four alphabets (semantic, procedural, implication with imported bases, relational with arguments) and every periodic history; every combination of premises inside every step is observed with its arguments and result, and everything held after a step must stem from what was held before, the input, or an observed combination; non-trivial = combinations of two premises",
  bounds=["16 concepts; histories of length 5, periods up to 3 over 30 steps", "length 6, periods up to 4"],
  assumptions=["combinations are observed at the inference functions' interface"])
S("P19", harness="p19_temporal.c", variant="small", shards=48,
  rule="every temporal operator on all pairs of 8 truth values, 10 x 10 times, 5 pairs of evidential bases and 5 pairs of statements, result compared field by field with its definition; all predictions and subgoals the reasoner draws from a hypothesis (4 shapes, with and without operation, all truth pairs, intervals, gaps between condition and operation); non-trivial = results with evidence below 0.9 / actual predictions and goals",
  bounds=["8 truth values, times up to 100, intervals 0-12, gaps 1-4"])
S("P26", harness="p26_answer.c", variant="small", shards=64,
  rule="after every input history over three alphabets (statements and events, temporal hypotheses under three operations, implications) each of 36 questions (with repeated and several variables) is asked in every tense, and as a query for all answers; compared with all matching held beliefs found by an independent matcher; non-trivial = questions with more than one matching belief",
  bounds=["histories of length 4 over 11-12 inputs, periods up to 2 over 14 inputs", "length 5, periods up to 3"],
  assumptions=["of equally strong answers any may be given", "implications are answered from the links held at their consequents"])
S("P27", harness="p27_reset.c", variant="midt", shards=64,
  rule="every pre-history (23 kinds of inputs and commands), then a reset, then every history over 12 inputs; output and digest of everything held compared after every step with the freshly started system; with and without motor babbling; histories repeated with other stack contents; non-trivial = compared steps",
  bounds=["pre-histories of length 1-3 with histories of length 4, 2, 1; periodic pre-histories up to period 2 over 24 inputs with histories of length 2", "pre-histories of length 1-3 with histories of length 4, 3, 2"],
  assumptions=["parameters set by commands and the position of the pseudo-random sequence are kept over a reset (the latter is set alike for the comparison)"])
S("P29", harness="p29_shell.c", variant="mid", shards=64,
  rule="in every state reached by words of shell lines: all parameters, operations, arguments, measured values, imported stamps and everything held compared with a reference interpreter after every line; information commands compared with the stores' content; statements, numbers and blank lines with the corresponding calls; whole sessions through the read loop; non-trivial = lines which print content or register a statement",
  bounds=["56 kinds of lines from three starting points, all words of length 3; all sessions of up to 3 of 15 lines", "words of length 4, sessions of up to 4 lines"],
  assumptions=["`*setopname` with concepts present and `*concurrent` before the first step are refused resp. meaningless and excluded"])
S("P30", harness="p30_net.c", variant="net", shards=64,
  technique="stateful model checking of the real multi-threaded code under a controlled scheduler (all interleavings of synchronisation operations, volatile and plain shared accesses, message arrival and shutdown)",
  rule="receiver, reasoner and owner run as coroutines; every lock, condition, join, sleep, socket call and every access of the network code to memory is a scheduling point (compiler instrumentation), all interleavings explored with state matching; races, overlapping use of the reasoner, lost or altered messages, wrong pauses, use of dead stack and blocked or endless waiting are violations; non-trivial = executions in which a message is handled while the reasoner runs",
  bounds=["up to 3 messages of 9 kinds, 3 free cycles of the reasoner (more when nothing else can run), 7 timesteps, up to 1 spurious wakeup, every moment of stopping; datagrams of all lengths over the loopback device", "4 messages, 5 cycles, 2 spurious wakeups"],
  assumptions=["accesses to variables declared volatile count as synchronised flags, as the code intends", "socket, thread and sleep calls behave as on Linux (shutdown wakes a blocked receiver, closing alone does not)"])
S("P21", harness="p21_learn.c", variant="learn", shards=64,
  rule="after every input of every history over nine alphabets of observations (repeated, simultaneous, uncertain, compound, with operations and arguments, gaps around the temporal window) all temporal hypotheses held (term, operation, truth, interval, evidence) are compared with those of a reference learner which records every experienced succession; non-trivial = inputs from which something is learned",
  bounds=["histories of length 5-7 over 5-9 inputs", "length 6-7"],
  assumptions=["anticipation is neutral (its confidence is set to 0); P22 covers it", "what is processed in a step is observed, P31 covers the selection", "hypotheses between simultaneous sequences are considered from the most recently used one on"])
S("P22", harness="p22_anticipate.c", variant="learn", shards=64,
  rule="after every input of every history over seven alphabets (told and learned hypotheses, conditions, operations with arguments, outcomes, generalised hypotheses whose outcomes create concepts) all temporal hypotheses held are compared with a reference learner which counts an anticipated outcome exactly once as weak negative evidence when condition and operation occur; besides every strength, interval and gap of one hypothesis fulfilled or failed: stronger resp. weaker; non-trivial = inputs with anticipations",
  bounds=["histories of length 5-6 over 5-9 inputs; 3 x 4 strengths, 2 anticipation confidences, intervals 1-10, gaps 1-3", "length 6-8"],
  assumptions=["variable introduction and semantic inference are switched off at their interface (P16, P17)", "a fulfilled anticipation is required to outweigh the anticipations before it for intervals up to 4 and the default anticipation confidence; beyond, to strengthen relative to the anticipation"])

S("P23", harness="p23_decide.c", variant="goal", shards=64,
  rule="whenever a goal is taken up, the reference evaluates every held hypothesis under every operation and every current condition; what is executed until the next item is taken up is compared; non-trivial = inputs with executions",
  bounds=["nine alphabets, histories of length 5-6; every combination of 8 strengths of hypothesis, condition and goal, 9 thresholds, ages up to 24 and a competitor; exploration with every chance outcome over 0-3 admitted operations", "length 6-7"],
  assumptions=["goals are observed when taken from their buffer (P31 covers which one)", "numeric similarity of conditions is not used"])

S("P24", harness="p24_execute.c", variant="goal3", shards=64,
  rule="calls of callbacks, the observation following each, the printed lines and the instance hypotheses are compared with the decision the reference licenses; non-trivial = inputs with executions",
  bounds=["all words of up to 4 registrations (3 names, 3 callbacks, restarts), each name then used with and without argument; nine alphabets (arguments, compound operations of up to 3 parts, unregistered parts, failing operations, returned values, exploration), histories of length 5-6", "registration words up to 5; length 6-7"],
  assumptions=["goals are observed when taken from their buffer (P31 covers which one)"])

S("P25", harness="p25_subgoal.c", variant="goal", shards=64,
  rule="whenever a goal is taken up, the goals derived until the next item is taken up are compared as a set (statement, desire, evidence, priority, layer) with those of the reference, and derived goals above the limits are taken up; non-trivial = inputs with derived goals",
  bounds=["sequences of 2-4 components in every order, each absent or of 4 strengths, ages up to 24, 3 thresholds; nine alphabets (sequences with variables, repeated and nested components, chains of hypotheses and implications), histories of length 5-6", "histories of length 6-7"],
  assumptions=["goals are observed when taken from their buffer (P31 covers which one)"])

S("P32", harness="p32_equivalent.c", variant="goal3", shards=64,
  rule="whenever an operation is called because of a hypothesis, all implications held are compared (statement, truth, evidence) with what was held when the goal was taken up plus what the reference derives from the pairs of hypotheses with that operation and result; non-trivial = calls from which something is learned",
  bounds=["16 x 15 pairs of conditions, 36 pairs of strengths, up to 36 pairs of temporal links; ten alphabets (sequences, relations, compound operations, general and experienced hypotheses, shared evidence, exploration), histories of length 5-6", "all pairs of links; length 6-7"],
  assumptions=["semantic inference is switched off at its interface (P17)"])
S("P33", harness="p33_similar.c", variant="goal", shards=64,
  rule="whenever a goal is taken up, the reference evaluates every held hypothesis under every operation and every current condition, conditions of other measured values discounted by their distance; what is executed is compared, and every hypothesis held refers to the concept of its own condition; non-trivial = inputs with conditions of another value considered",
  bounds=["9 x 9 values with 10 competitors, 7 distance scales, 4 strengths; eleven alphabets (attributes, sets, general hypotheses, several values in one condition, learned hypotheses, changing scale and values, subgoals), histories of length 5-6", "length 6-7"],
  assumptions=["values and distances are chosen such that equal distances are computed as equal"])
S("P34", harness="p34_relate.c", variant="relate", shards=64,
  rule="after every input of every history over alphabets of measured observations (larger, smaller and equal values, other attributes, units and copulas, compound things and attributes, contexts, uncertain and simultaneous ones) every held comparison (statement, truth, time, evidence) and every temporal hypothesis learned from it is compared with the reference; non-trivial = inputs after which a comparison is due",
  bounds=["histories of length 4-5 over 5-9 inputs", "length 5-6"],
  assumptions=["values of the same attribute are given in the same unit", "anticipation is neutral and semantic inference switched off (P22, P17)"])
