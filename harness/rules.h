/* The declarative rules (NAL levels 1-6) the documentation and NAL.h declare: premises, conclusion, truth function, whether
 * variables are introduced. Written down once; never read from the code under test. */
typedef struct { int n; const char *p1, *p2, *c, *t; int vi; } Rule;
static const Rule RULES[] = {
    { 2, "(S --> M)", "(M --> P)", "(S --> P)", "Deduction", 0 },
    { 2, "(A --> B)", "(A --> C)", "(C --> B)", "Induction", 0 },
    { 2, "(A --> C)", "(B --> C)", "(B --> A)", "Abduction", 0 },
    { 2, "(A --> B)", "(B --> C)", "(C --> A)", "Exemplification", 0 },
    { 2, "S", "(S --> P)", "P", "Deduction", 0 },
    { 2, "P", "(S --> P)", "S", "Abduction", 0 },
    { 1, "(S <-> P)", "", "(P <-> S)", "StructuralIntersection", 0 },
    { 2, "(M <-> P)", "(S <-> M)", "(S <-> P)", "Resemblance", 0 },
    { 2, "(P --> M)", "(S --> M)", "(S <-> P)", "Comparison", 0 },
    { 2, "(M --> P)", "(M --> S)", "(S <-> P)", "Comparison", 0 },
    { 2, "(M --> P)", "(S <-> M)", "(S --> P)", "Analogy", 0 },
    { 2, "(P --> M)", "(S <-> M)", "(P --> S)", "Analogy", 0 },
    { 2, "S", "(S <-> P)", "P", "Analogy", 0 },
    { 2, "S", "(P <-> S)", "P", "Analogy", 0 },
    { 1, "(S --> {P})", "", "(S <-> {P})", "StructuralIntersection", 0 },
    { 1, "([S] --> P)", "", "([S] <-> P)", "StructuralIntersection", 0 },
    { 2, "({M} --> P)", "(S <-> M)", "({S} --> P)", "Analogy", 0 },
    { 2, "(P --> [M])", "(S <-> M)", "(P --> [S])", "Analogy", 0 },
    { 1, "({A} <-> {B})", "", "(A <-> B)", "StructuralIntersection", 0 },
    { 1, "([A] <-> [B])", "", "(A <-> B)", "StructuralIntersection", 0 },
    { 1, "({A B} --> M)", "", "<{A} --> M>", "StructuralDeduction", 0 },
    { 1, "({A B} --> M)", "", "<{B} --> M>", "StructuralDeduction", 0 },
    { 1, "(M --> [A B])", "", "<M --> [A]>", "StructuralDeduction", 0 },
    { 1, "(M --> [A B])", "", "<M --> [B]>", "StructuralDeduction", 0 },
    { 1, "((S | P) --> M)", "", "(S --> M)", "StructuralDeduction", 0 },
    { 1, "(M --> (S & P))", "", "(M --> S)", "StructuralDeduction", 0 },
    { 1, "((S | P) --> M)", "", "(P --> M)", "StructuralDeduction", 0 },
    { 1, "(M --> (S & P))", "", "(M --> P)", "StructuralDeduction", 0 },
    { 1, "((A ~ S) --> M)", "", "(A --> M)", "StructuralDeduction", 0 },
    { 1, "(M --> (B - S))", "", "(M --> B)", "StructuralDeduction", 0 },
    { 1, "((A ~ S) --> M)", "", "(S --> M)", "StructuralDeductionNegated", 0 },
    { 1, "(M --> (B - S))", "", "(M --> S)", "StructuralDeductionNegated", 0 },
    { 2, "(P --> M)", "(S --> M)", "((P | S) --> M)", "Intersection", 0 },
    { 2, "(P --> M)", "(S --> M)", "((P & S) --> M)", "Union", 0 },
    { 2, "(P --> M)", "(S --> M)", "((P ~ S) --> M)", "Difference", 0 },
    { 2, "(M --> P)", "(M --> S)", "(M --> (P & S))", "Intersection", 0 },
    { 2, "(M --> P)", "(M --> S)", "(M --> (P | S))", "Union", 0 },
    { 2, "(M --> P)", "(M --> S)", "(M --> (P - S))", "Difference", 0 },
    { 2, "(S --> M)", "((S | P) --> M)", "(P --> M)", "DecomposePNN", 0 },
    { 2, "(P --> M)", "((S | P) --> M)", "(S --> M)", "DecomposePNN", 0 },
    { 2, "(S --> M)", "((S & P) --> M)", "(P --> M)", "DecomposeNPP", 0 },
    { 2, "(P --> M)", "((S & P) --> M)", "(S --> M)", "DecomposeNPP", 0 },
    { 2, "(S --> M)", "((S ~ P) --> M)", "(P --> M)", "DecomposePNP", 0 },
    { 2, "(S --> M)", "((P ~ S) --> M)", "(P --> M)", "DecomposeNNN", 0 },
    { 2, "(M --> S)", "(M --> (S & P))", "(M --> P)", "DecomposePNN", 0 },
    { 2, "(M --> P)", "(M --> (S & P))", "(M --> S)", "DecomposePNN", 0 },
    { 2, "(M --> S)", "(M --> (S | P))", "(M --> P)", "DecomposeNPP", 0 },
    { 2, "(M --> P)", "(M --> (S | P))", "(M --> S)", "DecomposeNPP", 0 },
    { 2, "(M --> S)", "(M --> (S - P))", "(M --> P)", "DecomposePNP", 0 },
    { 2, "(M --> S)", "(M --> (P - S))", "(M --> P)", "DecomposeNNN", 0 },
    { 1, "((A * B) --> (S * M))", "", "(A --> S)", "StructuralDeduction", 0 },
    { 1, "((A * B) --> (S * M))", "", "(B --> M)", "StructuralDeduction", 0 },
    { 1, "((A * B) --> R)", "", "(A --> (R /1 B))", "StructuralIntersection", 0 },
    { 1, "(A --> (R /1 B))", "", "((A * B) --> R)", "StructuralIntersection", 0 },
    { 1, "((A * B) --> R)", "", "(B --> (R /2 A))", "StructuralIntersection", 0 },
    { 1, "(B --> (R /2 A))", "", "((A * B) --> R)", "StructuralIntersection", 0 },
    { 1, "(R --> (A * B))", "", "((R \\1 B) --> A)", "StructuralIntersection", 0 },
    { 1, "((R \\1 B) --> A)", "", "(R --> (A * B))", "StructuralIntersection", 0 },
    { 1, "(R --> (A * B))", "", "((R \\2 A) --> B)", "StructuralIntersection", 0 },
    { 1, "((R \\2 A) --> B)", "", "(R --> (A * B))", "StructuralIntersection", 0 },
    { 2, "({R} |-> [P])", "({S} |-> [P])", "(({R} * {S}) --> (+ P))", "FrequencyGreater", 0 },
    { 2, "((A * B) --> (+ P))", "((B * C) --> (+ P))", "((A * C) --> (+ P))", "Deduction", 0 },
    { 2, "({R} |-> [P])", "({S} |-> [P])", "(({R} * {S}) --> (= P))", "FrequencyEqual", 0 },
    { 2, "((A * B) --> (= P))", "((B * C) --> (= P))", "((A * C) --> (= P))", "Deduction", 0 },
    { 1, "((A * B) --> (= P))", "", "((B * A) --> (= P))", "StructuralIntersection", 0 },
    { 2, "((A * B) --> R)", "((C * B) --> R)", "(C --> A)", "Abduction", 0 },
    { 2, "((A * B) --> R)", "((A * C) --> R)", "(C --> B)", "Abduction", 0 },
    { 2, "(R --> (A * B))", "(R --> (C * B))", "(C --> A)", "Induction", 0 },
    { 2, "(R --> (A * B))", "(R --> (A * C))", "(C --> B)", "Induction", 0 },
    { 2, "((A * B) --> R)", "(C --> A)", "((C * B) --> R)", "Deduction", 0 },
    { 2, "((A * B) --> R)", "(A --> C)", "((C * B) --> R)", "Induction", 0 },
    { 2, "((A * B) --> R)", "(C <-> A)", "((C * B) --> R)", "Analogy", 0 },
    { 2, "((A * B) --> R)", "(C --> B)", "((A * C) --> R)", "Deduction", 0 },
    { 2, "((A * B) --> R)", "(B --> C)", "((A * C) --> R)", "Induction", 0 },
    { 2, "((A * B) --> R)", "(C <-> B)", "((A * C) --> R)", "Analogy", 0 },
    { 2, "(R --> (A * B))", "(A --> C)", "(R --> (C * B))", "Deduction", 0 },
    { 2, "(R --> (A * B))", "(C --> A)", "(R --> (C * B))", "Abduction", 0 },
    { 2, "(R --> (A * B))", "(C <-> A)", "(R --> (C * B))", "Analogy", 0 },
    { 2, "(R --> (A * B))", "(B --> C)", "(R --> (A * C))", "Deduction", 0 },
    { 2, "(R --> (A * B))", "(C --> B)", "(R --> (A * C))", "Abduction", 0 },
    { 2, "(R --> (A * B))", "(C <-> B)", "(R --> (A * C))", "Analogy", 0 },
    { 2, "((A * B) --> R)", "((C * B) --> R)", "(A <-> C)", "Comparison", 0 },
    { 2, "((A * B) --> R)", "((A * C) --> R)", "(B <-> C)", "Comparison", 0 },
    { 2, "(R --> (A * B))", "(R --> (C * B))", "(A <-> C)", "Comparison", 0 },
    { 2, "(R --> (A * B))", "(R --> (A * C))", "(B <-> C)", "Comparison", 0 },
    { 1, "(! A)", "", "A", "Negation", 0 },
    { 1, "(A && B)", "", "A", "StructuralDeduction", 0 },
    { 1, "(A && B)", "", "B", "StructuralDeduction", 0 },
    { 1, "(A && B)", "", "(B && A)", "StructuralIntersection", 0 },
    { 2, "S", "(&& S A)", "A", "DecomposePNN", 0 },
    { 2, "S", "(|| S A)", "A", "DecomposeNPP", 0 },
    { 2, "S", "(&& (! S) A)", "A", "DecomposeNNN", 0 },
    { 2, "S", "(|| (! S) A)", "A", "DecomposePPP", 0 },
    { 2, "(S ==> M)", "(M ==> P)", "(S ==> P)", "Deduction", 0 },
    { 2, "(A ==> B)", "(A ==> C)", "(C ==> B)", "Induction", 0 },
    { 2, "(A ==> C)", "(B ==> C)", "(B ==> A)", "Abduction", 0 },
    { 2, "(A ==> B)", "(B ==> C)", "(C ==> A)", "Exemplification", 0 },
    { 2, "(A ==> C)", "(B ==> C)", "((A && B) ==> C)", "Union", 0 },
    { 2, "(A ==> C)", "(B ==> C)", "((A || B) ==> C)", "Intersection", 0 },
    { 2, "(C ==> A)", "(C ==> B)", "(C ==> (A && B))", "Intersection", 0 },
    { 2, "(C ==> A)", "(C ==> B)", "(C ==> (A || B))", "Union", 0 },
    { 2, "((S && P) ==> M)", "(S ==> M)", "P", "Abduction", 0 },
    { 2, "((C && M) ==> P)", "(S ==> M)", "((C && S) ==> P)", "Deduction", 0 },
    { 2, "((C && P) ==> M)", "((C && S) ==> M)", "(S ==> P)", "Abduction", 0 },
    { 2, "((C && M) ==> P)", "(M ==> S)", "((C && S) ==> P)", "Induction", 0 },
    { 1, "(S <=> P)", "", "(P <=> S)", "StructuralIntersection", 0 },
    { 2, "(S ==> P)", "(P ==> S)", "(S <=> P)", "Intersection", 0 },
    { 2, "(P ==> M)", "(S ==> M)", "(S <=> P)", "Comparison", 0 },
    { 2, "(M ==> P)", "(M ==> S)", "(S <=> P)", "Comparison", 0 },
    { 2, "(M ==> P)", "(S <=> M)", "(S ==> P)", "Analogy", 0 },
    { 2, "(P ==> M)", "(S <=> M)", "(P ==> S)", "Analogy", 0 },
    { 2, "(M <=> P)", "(S <=> M)", "(S <=> P)", "Resemblance", 0 },
    { 2, "(C --> A)", "(C --> B)", "((C --> B) ==> (C --> A))", "Induction", 1 },
    { 2, "(A --> C)", "(B --> C)", "((B --> C) ==> (A --> C))", "Induction", 1 },
    { 2, "(C --> A)", "(C --> B)", "((C --> B) <=> (C --> A))", "Comparison", 1 },
    { 2, "(A --> C)", "(B --> C)", "((B --> C) <=> (A --> C))", "Comparison", 1 },
    { 2, "(! (C --> A))", "(C --> B)", "((C --> B) ==> (! (C --> A)))", "Induction", 1 },
    { 2, "(! (A --> C))", "(B --> C)", "((B --> C) ==> (! (A --> C)))", "Induction", 1 },
    { 2, "(! (C --> A))", "(C --> B)", "((C --> B) <=> (! (C --> A)))", "Comparison", 1 },
    { 2, "(! (A --> C))", "(B --> C)", "((B --> C) <=> (! (A --> C)))", "Comparison", 1 },
    { 2, "(C --> A)", "(! (C --> B))", "((! (C --> B)) ==> (C --> A))", "Induction", 1 },
    { 2, "(A --> C)", "(! (B --> C))", "((! (B --> C)) ==> (A --> C))", "Induction", 1 },
    { 2, "(C --> A)", "(! (C --> B))", "((! (C --> B)) <=> (C --> A))", "Comparison", 1 },
    { 2, "(A --> C)", "(! (B --> C))", "((! (B --> C)) <=> (A --> C))", "Comparison", 1 },
    { 2, "(C --> A)", "(C --> B)", "((C --> B) && (C --> A))", "Intersection", 1 },
    { 2, "(A --> C)", "(B --> C)", "((B --> C) && (A --> C))", "Intersection", 1 },
    { 2, "(! (C --> A))", "(C --> B)", "((C --> B) && (! (C --> A)))", "Intersection", 1 },
    { 2, "(! (A --> C))", "(B --> C)", "((B --> C) && (! (A --> C)))", "Intersection", 1 },
    { 2, "(C --> A)", "(! (C --> B))", "((! (C --> B)) && (C --> A))", "Intersection", 1 },
    { 2, "(A --> C)", "(! (B --> C))", "((! (B --> C)) && (A --> C))", "Intersection", 1 },
    { 2, "(<$1 --> B> ==> <$1 --> C>)", "A", "(A && (<$1 --> B> ==> <$1 --> C>))", "Intersection", 1 },
    { 2, "(<#1 --> B> && <#1 --> C>)", "A", "(A ==> (<#1 --> B> && <#1 --> C>))", "Induction", 1 },
    { 2, "(B ==> C)", "A", "((A && B) ==> C)", "Induction", 1 },
    { 2, "((A * B) --> R)", "((B * A) --> S)", "(((B * A) --> S) ==> ((A * B) --> R))", "Induction", 1 },
    { 2, "(! ((B * A) --> R))", "((A * B) --> S)", "(((A * B) --> S) ==> (! ((B * A) --> R)))", "Induction", 1 },
    { 2, "((B * A) --> R)", "(! ((A * B) --> S))", "((! ((A * B) --> S)) ==> ((B * A) --> R))", "Induction", 1 },
    { 2, "((A * B) --> R)", "((B * C) --> S)", "(((A * B) --> R) && ((B * C) --> S))", "Intersection", 0 },
    { 2, "((A * C) --> M)", "(((A * B) --> R) && ((B * C) --> S))", "((((A * B) --> R) && ((B * C) --> S)) ==> ((A * C) --> M))", "Induction", 1 },
};
static const char *REDUCTIONS[][2] = {
    { "((A & A) --> M)", "(A --> M)" },
    { "(M --> (A & A))", "(M --> A)" },
    { "((A | A) --> M)", "(A --> M)" },
    { "(M --> (A | A))", "(M --> A)" },
    { "(A && A)", "A" },
    { "(A || A)", "A" },
    { "(({A} | {B}) --> M)", "({A B} --> M)" },
    { "(M --> ({A} | {B}))", "(M --> {A B})" },
    { "(({A B} | {C}) --> M)", "({(A . B) C} --> M)" },
    { "(M --> ({A B} | {C}))", "(M --> {(A . B) C})" },
    { "(({C} | {A B}) --> M)", "({C (A . B)} --> M)" },
    { "(M --> ({C} | {A B}))", "(M --> {C (A . B)})" },
    { "(([A] & [B]) --> M)", "([A B] --> M)" },
    { "(M --> ([A] & [B]))", "(M --> [A B])" },
    { "(([A B] & [C]) --> M)", "([(A . B) C] --> M)" },
    { "(M --> ([A B] & [C]))", "(M --> [(A . B) C])" },
    { "(([A] & [B C]) --> M)", "([A (B . C)] --> M)" },
    { "(M --> ([A] & [B C]))", "(M --> [A (B . C)])" },
    { "({(A . B)} --> M)", "({A B} --> M)" },
    { "(M --> {(A . B)})", "(M --> {A B})" },
    { "([(A . B)] --> M)", "([A B] --> M)" },
    { "(M --> [(A . B)])", "(M --> [A B])" },
};
#define NRULES ((int) (sizeof RULES/sizeof *RULES))
#define NRED ((int) (sizeof REDUCTIONS/sizeof *REDUCTIONS))
