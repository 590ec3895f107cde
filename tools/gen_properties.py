#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (kept as a script so the text is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in (state or [])],
                          "observe_at": observe or [], "hook_needed": hook}})

p("P01", "Attention buffers always keep the most important entries",
  "A bounded priority buffer behaves as an ideal priority buffer of its capacity: taking the maximum or minimum yields a true maximum or minimum, inserting into a full buffer displaces exactly one lowest-priority entry, and an insertion is refused only if its priority is below every held one. No entry is lost, duplicated or changes priority or content slot by any sequence of insertions, removals and rebuilds after priority changes, and the buffer never exceeds its capacity.",
  ["histories"], "all sequences of push / pop-min / pop-max / reprioritise+rebuild, for small capacities and priority alphabets with ties",
  "The one unit test pushes and pops a fixed series; heap-shape errors only show for particular orders, ties and fill levels.",
  ["src/PriorityQueue.c", "src/PriorityQueue.h"],
  [("min-max heap push/pop/rebuild", "PriorityQueue_Push, PriorityQueue_PopMin, PriorityQueue_PopMax, PriorityQueue_Rebuild")],
  ["returned item and priority", "content of the buffer"])

p("P02", "Keyed lookup is an exact map under any insert/delete history",
  "For every history of insertions, overwrites, lookups and deletions of present keys, a lookup returns exactly the value last stored for an equal key and nothing for a key that is absent, including among keys that collide. Deleted entries' storage is reusable, so the table can always hold as many entries as its stated capacity, however often entries were inserted and deleted before.",
  ["histories"], "all operation sequences over a colliding key alphabet for small bucket counts and capacities",
  "The unit test performs one scripted sequence with one collision pattern; chain-relinking errors depend on position in the chain and on reuse.",
  ["src/HashTable.c", "src/Stack.c"],
  [("chained buckets with recycled items", "HashTable_Set, HashTable_Get, HashTable_Delete, Stack_Push, Stack_Pop")],
  ["HashTable_Get results"])

p("P03", "The atom index lists exactly the live concepts sharing an atom",
  "At any time the concepts listed under an atomic name are exactly the indexed concepts whose term contains that name (within the indexed depth), each listed once, and copulas are not indexed. Adding a concept twice, or removing one of several concepts under a shared atom, leaves all other listings intact.",
  ["histories"], "all add/remove histories over a set of concepts with overlapping atoms",
  "The unit test adds and removes three fixed concepts in one order.",
  ["src/InvertedAtomIndex.c"],
  [("per-atom chains", "InvertedAtomIndex_AddConcept, InvertedAtomIndex_RemoveConcept, InvertedAtomIndex_GetInvertedAtomIndexChain")],
  ["the chain of each atom"])

p("P04", "Concept memory stays coherent while concepts come and go",
  "After any history of inputs and concept creation beyond capacity, every stored concept is findable by its term, no evicted concept is findable, each term names at most one concept, and the atom index refers only to and to all of the stored concepts. When memory is full, a new concept takes the place of a least useful one (by the current usefulness ranking) and starts empty: nothing learned by the evicted concept is visible under the new term.",
  ["histories"], "all conceptualisation/input/cycle histories with a capacity of a few concepts, up to a depth bound",
  "Tests never fill the 16384-slot memory, so eviction and slot reuse are never executed by them.",
  ["src/Memory.c", "src/Cycle.c", "src/Usage.c", "src/HashTable.c", "src/InvertedAtomIndex.c", "src/PriorityQueue.c"],
  [("conceptualise with eviction", "Memory_Conceptualize"), ("relative forgetting", "Cycle.c: relative forgetting"), ("concept ids", "Memory_ImplicationValid")],
  ["Memory_FindConceptByTerm", "concept queue", "atom index chains"])

p("P05", "Hypothesis tables keep the strongest hypotheses, ranked and bounded",
  "A hypothesis table is always ordered from strongest to weakest truth expectation, holds at most its capacity and at most one entry per term, and on overflow drops only a weakest one; removing an entry leaves the others in order. Adding a hypothesis about a term already present leaves one entry whose truth is the evidence-weighted combination of both, its time offset the correspondingly weighted average and its evidence the combined evidence.",
  ["histories"], "all add/add-and-revise/remove sequences over a term and truth alphabet with ties, for a small capacity",
  "The unit test inserts in one ascending order; ordering/shift errors depend on position, ties and fill level.",
  ["src/Table.c", "src/Inference.c"],
  [("sorted insert with drop", "Table_Add"), ("merge of equal terms", "Table_AddAndRevise"), ("shift on removal", "Table_Remove")],
  ["table content after every operation"])

p("P06", "The recency index enumerates the most recently used concepts in order",
  "After any number of insertions the k-th newest entry is the concept inserted k insertions ago, for every k up to the number of held entries, and the index holds the most recent entries up to its capacity.",
  ["histories"], "all insertion histories across wrap-around, all k",
  "The unit test overfills once with one fixed pattern and checks one direction only.",
  ["src/OccurrenceTimeIndex.c"],
  [("ring buffer", "OccurrenceTimeIndex_Add, OccurrenceTimeIndex_GetKthNewestElement")],
  ["OccurrenceTimeIndex_GetKthNewestElement"])

p("P07", "Evidence bookkeeping never misses or invents shared evidence",
  "Two pieces of evidence are reported as overlapping exactly if they share a base identifier, in either argument order; merging takes base identifiers alternately from both, newest first, contains no identifier not in one of them, and loses identifiers only beyond the maximum length. Two stamps are considered the same evidence only if they contain the same base identifiers.",
  ["inputs"], "all pairs of stamps up to a length bound over a small identifier alphabet, at several maximum lengths",
  "The unit test zips one pair of stamps and checks nothing about partial overlap or unequal lengths.",
  ["src/Stamp.c"],
  [("zip merge", "Stamp_make"), ("overlap", "Stamp_checkOverlap"), ("equality", "Stamp_Equal")],
  ["returned stamps"])

p("P08", "Truth-value functions compute the NAL definitions within bounds",
  "Every truth function yields the frequency and confidence its NAL definition prescribes for all premise truth values, with frequency in [0,1] and confidence in [0,1). Revision is commutative, weights by amount of evidence, never yields less confidence than either premise nor more than the maximum, and temporal projection decays confidence with distance in either direction while leaving frequency and eternal truth untouched.",
  ["inputs"], "all premise pairs on a fine grid including the extremes, for several evidential horizons and projection decays",
  "No test evaluates a truth function directly; example files check a few derived values with one-sided comparisons.",
  ["src/Truth.c", "src/Truth.h"],
  [("truth functions", "Truth_*")], ["return values"])

p("P09", "No evidence is counted twice in a belief",
  "When a statement is held as an eternal belief (implications between statements also where answers and decisions look for them) or as an event belief for a time, new evidence for it is pooled with the held one only if the two share no evidential base; otherwise the belief with higher confidence is kept unchanged (the held one if equal). Repeating the same item or feeding back its own consequences therefore never raises confidence, whereas independent repetitions accumulate exactly.",
  ["histories"], "all input histories (same/independent evidence, frequencies, times) up to a depth bound over a few statements",
  "Tests only check one-sided lower confidence bounds of answers, which double counting satisfies even better.",
  ["src/Memory.c", "src/Inference.c", "src/Stamp.c", "src/Truth.c"],
  [("revision and choice", "Inference_RevisionAndChoice"), ("event memory", "Memory_AddEvent / Memory_ProcessNewBeliefEvent")],
  ["beliefs, belief events and answers"])

p("P10", "Term construction, extraction and comparison are faithful",
  "Extracting the sub-term at any position yields exactly that sub-tree; writing a sub-term at a place that is empty or holds an atom changes exactly that sub-tree, or is refused exactly when it does not fit the term size limit. Two terms compare equal exactly if they have the same structure and atoms no matter how they were built or whether they were hashed or changed before, equal terms hash equal, and complexity counts the atoms.",
  ["inputs"], "all small terms over a small atom alphabet, all positions, all pairs, with and without prior hashing",
  "Tests never touch the term operations directly; stale-hash and boundary errors need particular positions and call orders.",
  ["src/Term.c"],
  [("relative override", "Term_OverrideSubterm, Term_ExtractSubterm"), ("hash caching", "Term_Hash, Term_Equal")],
  ["returned terms"])

p("P11", "Narsese printing and parsing are inverse to each other",
  "Every term accepted by the reader (connectors written with their documented number of components, atom names within the length limit) denotes the structure its text describes, in each of the accepted notations (infix, prefix, angle or round brackets, sets, images, operators), and printing any such term and reading the text back yields an equal term. Different structures are never read as equal terms and never print alike (up to renaming of variables).",
  ["inputs"], "all terms over every copula and connector up to a depth/size bound, in every accepted notation",
  "The Narsese unit test only prints one term; the examples exercise a small set of shapes.",
  ["src/Narsese.c"],
  [("tokeniser and prefix transform", "Narsese_Expand, Narsese_PrefixTransform"), ("tree building", "Narsese_Term"), ("printer", "Narsese_PrintTerm")],
  ["Narsese_Term, Narsese_PrintTerm output"])

p("P12", "Sentence fields are read exactly as written",
  "For every well-formed input sentence the term, sentence type, tense, truth value and optional time offset that the system registers are those written, with documented defaults where omitted (confidence limited to the maximum; temporal hypotheses given as events are registered as general knowledge). Judgement, goal and question marks, tense marks and truth values in either notation never leak into one another or into the term.",
  ["inputs"], "the full product of terms, punctuation, tense marks, truth notations and dt prefixes",
  "Examples only use a few combinations and never inspect the registered fields.",
  ["src/Narsese.c", "src/NAR.c"],
  [("sentence reader", "Narsese_Sentence, NAR_AddInputNarsese")],
  ["Narsese_Sentence outputs, printed input echo"])

p("P13", "No input text can corrupt the system",
  "Any input line is either processed or rejected by a diagnostic; no line of text, however malformed, overlong or deeply nested, makes the system read or write outside its memory or hang.",
  ["inputs"], "all token strings up to a length bound over the full Narsese token alphabet, plus all boundary lengths and nesting depths",
  "Tests only feed well-formed lines.",
  ["src/Narsese.c", "src/NAR.c", "src/Shell.c"],
  [("reader assertions and buffer bounds", "Narsese_Sentence, Narsese_Term, Shell_ProcessInput")],
  ["sanitizer report, diagnostics, exit status"])

p("P14", "Variable names carry no meaning beyond identity",
  "Input statements that differ only by a consistent renaming of variables are the same statement to the system, and statements that are not renamings of one another are never identified: normalisation keeps variable kinds, keeps distinct variables distinct and equal ones equal, and is idempotent.",
  ["inputs"], "all terms with up to several variable occurrences of every kind and every naming",
  "Tests use canonical variable names in canonical order only.",
  ["src/Variable.c", "src/Narsese.c"],
  [("normalisation", "Variable_Normalize")], ["Narsese_Term equality"])

p("P15", "Unification finds exactly the consistent variable bindings",
  "Matching two terms succeeds exactly if there is an assignment of the general term's variables (of the admitted kind) that makes it equal to the specific one with every variable bound to one value, and applying the returned assignment to the general term yields the specific term. Variables never bind to set terminators, query variables never bind to variables, and a failed match is reported as failed.",
  ["inputs"], "all pairs of general and specific terms up to a size bound over variables of all kinds and a small atom alphabet",
  "Unification has no direct test; inconsistent double bindings need particular repeated-variable shapes.",
  ["src/Variable.c"],
  [("unification", "Variable_Unify, Variable_Unify2, Variable_UnifyQuery"), ("substitution", "Variable_ApplySubstitute")],
  ["success flag, substitution, substituted term"])

p("P16", "Generalisation only replaces repeated constants by fresh variables",
  "Variable introduction turns a statement into a generalisation of it: replacing each introduced variable by one constant gives back the original statement, each variable stands for one and the same constant at all its places, different constants get different variables, existing variables and operations are not disturbed, and only constants occurring on more than one place are generalised: in implications those repeated in the role the generalisation is about (subjects or predicates), becoming independent variables exactly if they occur on both sides.",
  ["inputs"], "all implications and conjunctions of inheritance statements over a small atom alphabet up to a size bound",
  "Tests look for a few named generalisations among the outputs and never reject a wrong one.",
  ["src/Variable.c"],
  [("variable introduction", "Variable_IntroduceImplicationVariables, Variable_IntroduceConjunctionVariables")],
  ["returned terms"])

p("P17", "Semantic inference draws exactly the conclusions its rules license",
  "For any premise pair (or single premise) the conclusions derived are exactly those of the declared rule set whose premise patterns match: the conclusion term is the instantiated rule conclusion and its truth is the rule's truth function applied to the premises, in the rule's premise order, except that conclusions of certain redundant shapes are left out. No conclusion with another term or truth is ever derived.",
  ["inputs"], "all pairs of premises up to a size bound over a small atom alphabet, matched against an independent interpretation of the rule list",
  "Examples check that particular answers appear with at least a confidence; unsound extra or missing conclusions pass.",
  ["src/NAL.c", "src/NAL.h", "src/RuleTable.h"],
  [("rule compilation", "NAL_GenerateRuleTable, generated RuleTable.c"), ("rule application", "RuleTable_Apply")],
  ["derivation output of each premise pair"])

p("P18", "Derived knowledge always carries the merged evidence of its premises",
  "Every derived event or belief carries exactly the (length-bounded) merged evidential base of its premises, premises with overlapping evidence are never combined by semantic two-premise rules, and inputs get a fresh base of their own. Derivations never have more confidence than permitted nor less than the acceptance minimum.",
  ["histories"], "all input histories of a few statements and cycles up to a depth bound, every derivation inspected",
  "Tests never look at stamps of derivations.",
  ["src/Cycle.c", "src/NAL.c", "src/Memory.c", "src/NAR.c"],
  [("overlap guard and merge", "Cycle.c inference steps"), ("input base", "NAR_AddInput")],
  ["derived events' stamps"])

p("P19", "Temporal inference steps compute the right time, truth and evidence",
  "Sequence formation, temporal induction, prediction, goal derivation and event updating each produce the term, occurrence time, time offset, truth and evidence their definition gives for the premises' times and truths, for any order and distance of the premises. Values are projected to the common time before combination, exactly once.",
  ["inputs"], "all premise combinations over small grids of times, truths, offsets and stamps",
  "No test calls these operators; system tests only see end behaviour.",
  ["src/Inference.c", "src/Truth.c", "src/Event.c", "src/Implication.h"],
  [("inference operators", "Inference_*")], ["returned events/implications"])

p("P20", "Beliefs keep the current observation, prediction and pooled general knowledge",
  "After any order of observed, predicted and eternal items about a statement, the concept's current observation is the one that is most confident when both are projected to the later of their times (items of the same time with independent evidence are pooled), its prediction likewise for future items, and its general belief pools all of them as eternal evidence. An older item never displaces a newer observation unless it is still the more confident one at the newer one's time.",
  ["histories"], "all histories of past/present/future/eternal items for a statement up to a depth bound",
  "Tests never feed out-of-order times.",
  ["src/Memory.c", "src/Inference.c"],
  [("belief update", "Memory_ProcessNewBeliefEvent / Memory_AddEvent")], ["concept belief slots, answers with tense"])

p("P21", "Temporal learning records each experienced succession with its interval",
  "When two events are observed one after the other within the temporal window, the corresponding temporal hypothesis (with operation, if one was executed in between) is held for the consequence with the observed interval and induction truth, and each further experience adds its evidence to it. No hypothesis is formed against the direction of time, beyond the window, or from items that were not observed.",
  ["histories"], "all event timings of a few statements and operations over a bounded timeline",
  "System tests only check that a final behaviour emerges from long training.",
  ["src/Cycle.c", "src/Inference.c", "src/Memory.c"],
  [("correlation of recent events", "Cycle.c belief event processing")], ["*concepts output, temporal questions"])

p("P22", "Failed predictions weaken a hypothesis, fulfilled ones do not",
  "When the condition (and operation) of a learned temporal hypothesis occurs, the anticipated outcome counts as weak negative evidence until it is observed; if the outcome then occurs at the learned interval the hypothesis ends up stronger than before, and if not, weaker in expectation. Anticipation affects only the hypotheses whose condition actually occurred.",
  ["histories"], "all outcome/no-outcome histories for a few hypotheses up to a depth bound",
  "Tests check only the learned end behaviour.",
  ["src/Decision.c", "src/Cycle.c", "src/Memory.c"],
  [("anticipation", "Decision_Anticipate")], ["hypothesis truth before/after"])

p("P23", "Operations are executed only when sufficiently desired, and the best one is",
  "Outside of exploration (motor babbling), an operation is executed only if a goal's desire propagated through a held hypothesis with current condition reaches the decision threshold, and then it is the operation with the highest such desire. Instances of general hypotheses which are known to fail, and operations known to lead rather to unwanted outcomes of other present goals, are left out. Without babbling and without sufficient desire nothing is ever executed, and exploration triggers only registered, non-excluded operations.",
  ["histories", "configurations"], "all small sets of hypotheses, current conditions, goals and thresholds",
  "System tests show typical success, never the absence of executions or the choice among near-equal options.",
  ["src/Decision.c", "src/Cycle.c", "src/NAR.c"],
  [("best candidate", "Decision_BestCandidate / Decision_Suggest"), ("babbling", "Decision.c motor babbling"), ("execution", "Decision_Execute")],
  ["executed operations"])

p("P24", "Executed operations receive the right arguments and leave the right feedback",
  "An executed operation's callback is the one registered under its name, is called exactly once per decision, and receives exactly the arguments the decision's goal or hypothesis specified, or (exploring) one of its registered babbling arguments, each of which can come up; the system then observes its own execution as a present event of that very operation (completed by the values the operation returned), unless the operation failed. Compound operations run their parts in order, up to the first that fails, and not at all when a part is not registered. When the operation was chosen by a general hypothesis whose instance was never experienced, that instance is from then on held as weakly failing.",
  ["histories", "configurations"], "all operation-registration orders, argument shapes and goal forms up to a bound",
  "Tests use a handful of fixed registrations.",
  ["src/Decision.c", "src/NAR.c", "src/Memory.c", "src/Narsese.c"],
  [("operation lookup", "Memory_getOperationID"), ("execution and feedback", "Decision_Execute")], ["callbacks, feedback events"])

p("P25", "Sequenced goals and subgoals are pursued in order",
  "A desired sequence leads to pursuing its first component that is not currently fulfilled, and never a later component before it; once all are fulfilled nothing more is pursued for it. A goal reachable only through an intermediate condition makes that condition a goal, with the desire the hypothesis passes on.",
  ["histories"], "all fulfilled/unfulfilled patterns of sequences up to the maximum length and small hypothesis chains",
  "System tests include one multistep scenario each.",
  ["src/Cycle.c", "src/Inference.c"],
  [("goal sequence decomposition", "Cycle_GoalSequenceDecomposition"), ("subgoaling", "Cycle.c goal processing")], ["derived goals, executions"])

p("P26", "A question is answered with the best matching held belief",
  "For every held knowledge base and question, the answer is the matching belief of the requested tense (present: observations and predictions, past: observations, future: predictions, each projected to now; no tense: general beliefs and hypotheses) with the highest truth expectation, with its actual truth, and 'None' is answered exactly if no held belief matches. This holds for statements, temporal hypotheses under any operation, and questions with variables, each variable standing for one term throughout.",
  ["histories", "inputs"], "all small knowledge bases with every question pattern and tense over a small alphabet",
  "Tests look for one expected answer among all printed ones.",
  ["src/NAR.c", "src/Variable.c"],
  [("answer selection", "NAR_AddInput question branch")], ["Answer lines"])

p("P27", "Behaviour is a function of the input history alone",
  "Resetting the system makes it behave exactly as a freshly started one on any subsequent history, no matter what happened before, and running the same history twice yields identical output, executions and knowledge. Nothing of an earlier run (knowledge, time, evidence numbering, pending events, operations) leaks past a reset; only parameters set by command and the position in the pseudo-random sequence are kept.",
  ["histories"], "all pairs (pre-history, history) up to a depth bound",
  "Tests reset many times but never compare behaviour with a fresh start.",
  ["src/NAR.c", "src/Memory.c", "src/Cycle.c", "src/Decision.c", "src/Narsese.c"],
  [("initialisation", "NAR_INIT and all module _INIT functions")], ["complete output of the history"])

p("P28", "The reasoner runs forever in bounded memory",
  "For any input history of any length the reasoner never accesses memory outside its fixed stores and never fails an internal check: queues, tables, stamps, indices and concepts stay within their limits, every truth value stays in range, and every reference between stores remains valid or is recognised as stale, even when all stores are constantly full.",
  ["histories"], "all input histories up to a depth bound with all capacities reduced to a minimum, so that every store overflows, under a memory-error detector",
  "Default capacities are never exhausted in the tests and no memory-error detector is used.",
  ["src/Cycle.c", "src/Memory.c", "src/Decision.c", "src/Inference.c", "src/NAL.c"],
  [("bounded stores", "Memory.c, Cycle.c")], ["sanitizer report, invariants after each step"])

p("P29", "Interactive commands do what they say and nothing else",
  "Every shell command sets exactly the documented parameter or prints exactly the requested information, at any point of any session, and takes effect for subsequent inputs only; statements, numbers, comments and blank lines act as statement input, that many steps, nothing and one step respectively. Reset returns the session to its initial state except for parameters set by command.",
  ["histories"], "all command sequences up to a depth bound over the complete command set",
  "Tests drive only a few commands in scripted files.",
  ["src/Shell.c", "src/NAR.c"],
  [("command dispatch", "Shell_ProcessInput")], ["printed output, parameters, subsequent behaviour"])

p("P30", "The network service is free of races, deadlocks and lost shutdowns",
  "With the network service running, under every interleaving of its receiver, its reasoner and its owner, the reasoner state is only touched by one thread at a time, every received message is handled exactly once and in order, the configured cycle pause is the one requested, and starting and stopping always terminate with all threads gone.",
  ["schedules"], "all interleavings of starter, reasoner and receiver threads up to a preemption bound, with small message scripts",
  "The only test is timing dependent and excluded as unreliable.",
  ["src/NetworkNAR/UDPNAR.c", "src/NetworkNAR/UDP.c"],
  [("mutex and start handshake", "UDPNAR_Start, UDPNAR_Stop")], ["message processing order, mutex ownership at accesses"])

p("P31", "Forgetting is monotone and never reorders by accident",
  "With every step without selection, an entry's priority decays by the configured durability, the ranking between equally treated entries stays as it was, and use or input can only raise an entry. What is selected in a step is the highest-priority entry held, and a selected or processed entry leaves the buffer.",
  ["histories"], "all histories of inputs and steps up to a depth bound with small buffers",
  "Tests never inspect priorities.",
  ["src/Cycle.c", "src/Memory.c", "src/Usage.c"],
  [("relative forgetting", "Cycle.c"), ("usefulness", "Usage.c")], ["buffer contents and priorities"])

p("P32", "What leads to the same result by the same operations is related",
  "When an operation is executed because of a variable-free hypothesis, its condition is related to the condition of every other variable-free hypothesis held for the same operations and result that rests on other evidence, after removal of the parts both sequences share at an end, if both are of the same length and neither is known to follow the other in time: <S ==> T> for both directions, as strong as the two hypotheses warrant and resting on the evidence of both, together with its generalisations, each pair's evidence counted once. Nothing else is concluded about conditions from executing an operation.",
  ["histories", "inputs"], "all pairs of condition shapes, strengths and temporal links; all input histories up to a depth bound over alphabets of told and experienced hypotheses, sequences, relations, compound operations",
  "Tests only see whether the final task is solved; wrong or doubly counted implications surface much later as overconfident answers.",
  ["src/Decision.c", "src/Variable.c", "src/Table.c"],
  [("functional equivalence", "Decision_Execute"), ("generalisation", "Variable_IntroduceImplicationVariables2"), ("temporal links", "Memory_getTemporalLinkTruth")], ["implications held after an execution, printed derivations, answers"])

p("P33", "Knowledge about measured values carries over to similar values only",
  "A hypothesis about one measured value of an attribute also applies when another value of the same attribute is observed, with the confidence of the observation reduced in proportion to the distance between the values (relative to the similarity distance), not at all from that distance on, and never between different attributes. It does not apply when a hypothesis about the same goal with a closer value is held. The operation with the highest resulting desire is executed, if it reaches the threshold. Acting on a similar condition leaves each hypothesis attached to its own condition.",
  ["inputs", "histories", "configurations"], "all pairs of values, distance scales, strengths and competing hypotheses of a grid, and all histories over alphabets of measured conditions up to a depth bound",
  "Tests run one example with measured values; which hypothesis is used for an unseen value depends on everything held.",
  ["src/Variable.c", "src/Decision.c", "src/Shell.c", "src/Narsese.c"],
  [("graded unification", "Variable_UnifyWithAnalogy"), ("closest hypothesis", "Decision_BestCandidate"), ("values", "Narsese_setAtomValue / *setvalue, *similaritydistance=")],
  ["executed operations", "conditions of held hypotheses"])

p("P34", "Measured values of observed things are compared",
  "When readings of the same attribute of two things (<(x * value) --> attribute>, or |->) are experienced one after the other, both with a value made known as measured, the reasoner holds with the sequence of both how the things compare: <(x * y) --> (+ attribute)> with the thing of the larger value first, <(x * y) --> (= attribute)> if the values are equal, what preceded both remaining its context. It is an observation of exactly the time, truth and evidence of the sequence, and hypotheses are learned from it as from any other. Nothing is compared between different attributes, for unmeasured terms or for anything but readings.",
  ["histories", "inputs"], "all histories of readings and other observations up to a depth bound over alphabets of things, values, units, attributes and contexts",
  "Tests look at one or two examples with atomic attributes; a wrong direction, context or evidence only shows as strange hypotheses later.",
  ["src/Cycle.c", "src/Narsese.c", "src/Memory.c", "src/Shell.c"],
  [("comparison", "Cycle_ProcessBeliefEvents"), ("measured values", "Narsese_setAtomValue / Narsese_getAtomValue"), ("event memory", "Memory_AddEvent")], ["events held and derived, hypotheses, answers"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
