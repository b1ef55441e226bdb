#!/usr/bin/env python3
"""Writes properties.jsonl (run once after editing; the output is committed)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    d={"id":id,"title":title,"statement":statement,
       "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":a,"where":b} for a,b in mech],"observe_at":observe,"hook_needed":None}}
    if state: d["anchors"]["state"]=[{"name":a,"meaning":b,"where":c} for a,b,c in state]
    assert len(title)<=80,(id,len(title))
    P.append(d)
D="src/decompose/mod.rs"; R="src/rules.rs"; L="src/lex/mod.rs"; C="src/lex/selmaho/classify.rs"; DI="src/lex/selmaho/display.rs"; SM="src/lex/selmaho/mod.rs"; SP="src/span.rs"
G="src/parse/cst/rules/mod.rs"; GS="src/parse/cst/rules/selmaho.rs"; GM="src/parse/cst/rules/mekso.rs"; GC="src/parse/cst/rules/connectives.rs"; GH="src/parse/cst/rules/helpers.rs"
PT="src/parse/cst/parse_trait.rs"; E="src/parse/cst/error.rs"; CM="src/parse/cst/mod.rs"; TN="src/parse/tree_node.rs"; AR="src/parse/arena.rs"
DP="macros/src/derive_parse.rs"; DT="macros/src/derive_tree_node.rs"; ML="macros/src/lib.rs"; EX="examples/main.rs"

p("C01","Any text is analysed to completion: no panic, abort or runaway",
 "For any UTF-8 text (any characters at all, including commas, separators, control and non-ASCII characters, capitals, digits and unfinished quotations) whose grammatical nesting and unbroken runs of letters are of ordinary depth and length, splitting it into words, lexing it and parsing it each return normally with words, tokens, a tree or an error value. None of them panics, aborts, overflows the stack or an integer (with overflow checks on), or keeps running: the work stays within what the grammar's own recognition of each run and of the token sequence accounts for. The same holds for parsing any sequence of tokens, even one no text produces.",
 ["inputs"],"all UTF-8 texts with nesting up to 6 levels and runs of letters up to about 40; all token sequences of up to 60 tokens",
 "The tests run some 1,600 well-formed sentences; a panic or an exponential blow-up needs an input nobody wrote down (a lone comma, a run of y, an empty quotation, an upper-case cluster before a multi-byte character).",
 [D,R,L,C,G,GH,PT,SP],[("chunk loop and pointer arithmetic on slices",D+": decompose_single, Decomposer::next"),("rule combinators",R+": seq!, repeat, one_of"),("fixed buffer for known cmavo",C+": transform_for_direct_cmavo_check"),("quote state machine",L+": Lexer::next"),("ordered choice with no error at the root",G+": Text")],
 ["return/unwind/abort of decompose, lex, Cst::parse","CPU time and rule-entry events per case"])
p("C02","Words are an ordered, lossless cover of the text",
 "For any text, the words found are non-empty, in text order, do not overlap, start and end on character boundaries and contain no pause, whitespace or other separator. Every character that is neither a separator nor a comma lies in exactly one word. No word consists only of commas, and a comma belongs to a word only if a letter of that word follows it.",
 ["inputs"],"all UTF-8 texts",
 "Tests compare the words of about forty chosen texts; loss, duplication or mis-slicing shows only for particular combinations of commas, failed re-splitting and non-ASCII characters.",
 [D,SP],[("chunk iterator with offset translation",D+": Decomposer::next"),("fall-off loop with the saved last word",D+": decompose_single")],["spans yielded by decompose"])
p("C03","Pauses isolate: splitting is independent per pause-free run",
 "The words of a text made of two parts joined by one or more separators are exactly the words of the first part followed by the words of the second part, shifted by its position. Which separator characters are used (space, tab, newline, carriage return, full stop, question or exclamation mark), how many, and whether some lead or trail, never changes the words.",
 ["inputs","histories"],"all texts and all ways of cutting and re-spacing them",
 "It is a relation between different texts, quantified over all contexts; the tests check single texts.",
 [D],[("split on split_or_trim_condition",D+": split_or_trim_condition, Decomposer::new"),("per-chunk analysis without carried state",D+": decompose_single")],["spans yielded by decompose on related texts"])
p("C04","Runs of letters are split exactly as the Lojban morphology prescribes",
 "Within each pause-free run, words are split off exactly as the Lojban morphology (the camxes-style PEG, with explicit capital stress) prescribes: a run whose last letter is a consonant is one name; otherwise cmavo and explicitly stressed brivla fall off the front as long as they are valid, the last one only if what remains starts a valid word, and the remainder is one word. The form each word is recognised as (name, cmavo, gismu, fu'ivla, lujvo or none) is the one the morphology gives it. This holds for every run of letters, apostrophes (or h), digits, commas and capitals, valid Lojban or not.",
 ["inputs"],"all strings over the Lojban letters (exhaustive for short ones over reduced alphabets), any case",
 "The tests pin some forty runs; the morphology has about eighty mutually recursive rules with look-ahead whose interaction is only visible on particular letter clusters.",
 [R,D],[("PEG morphology rules",R),("fall-off loop and post-word check",D+": decompose_single, post_word, simple_cmevla_check")],["spans yielded by decompose, compared with an executable morphology model"])
p("C05","Commas are inert",
 "Inserting or removing commas anywhere inside or at the edges of a run of letters changes neither which words the run is split into (commas aside) nor how each word is classified, nor the shape of the parse tree. This also holds for commas in or around quotation delimiters; only text that is quoted verbatim keeps its commas.",
 ["inputs"],"all texts and all insertions of commas next to a letter of a pause-free run",
 "One test inserts commas into one compound; the guarantee is over every position of every word, including the last one of a run.",
 [R,D,C,L],[("every terminal skips leading commas",R+": one_of"),("comma stripping before table lookup",C+": transform_for_direct_cmavo_check"),("comma-insensitive delimiter comparison",L+": next_delimited_quote"),("commas trimmed off a run's end",D+": decompose_single")],["words, tokens and trees of a text and of its comma variants"])
p("C06","Word-wise and verbatim reading can be interleaved freely",
 "A word iterator can be advanced word-wise or by taking the unsplit rest of the current pause-free run (or the next run, possibly empty) in any order: every history of such calls yields exactly what a cursor over the runs prescribes. Neither kind of step re-reads or skips characters. A copy of the iterator continues identically and independently, and its announced minimum of remaining items never exceeds what it still yields.",
 ["histories","inputs"],"all sequences of word-wise, verbatim, copy and size-query calls on all texts",
 "The tests contain two fixed call sequences; the state (half-consumed run, peeked run, offsets) depends on the whole history.",
 [D],[("current_chunk / chunks / peek state",D+": Decomposer"),("verbatim step",D+": next_no_decomposition"),("lower bound",D+": size_hint")],["every item returned by next, next_no_decomposition, size_hint and clones"],
 [("current_chunk","words of the run being delivered",D),("chunks","remaining runs",D)])
p("C07","The token stream is the words, classified, up to the end-of-text word",
 "Outside quotations the tokens of a text are exactly its words, one token each, in order, with the word's span and the class and experimental flag that the word has on its own. A quoting word switches the following words to verbatim reading as its class prescribes (one delimited text, two texts with a shared delimiter, or one pause-delimited text) and ordinary reading resumes right after. The end-of-text word is the last token whatever follows it, and the stream stays ended.",
 ["inputs","histories"],"all texts, any mixture and order of quoting words, nested look-alikes and end words",
 "About thirty lexer tests cover one quotation each; sequences of quotations, quotation at the text's edges, and quotation inside unsplit runs are combinations.",
 [L,C,D],[("lexer state machine",L+": State, next_normal, next_delimited_quote, next_pause_delimited_quote"),("classification",C+": Selmaho::classify")],["tokens yielded by lex, compared with a reference lexer"],
 [("state","normal / in delimited quote / pending tokens / pause-delimited / done",L)])
p("C08","Quoted text is carried verbatim into tokens and tree",
 "Text inside a delimited quotation comes back as one token whose span is exactly the quoted text from its first to its last run, whatever it contains (foreign letters, commas, Lojban, quoting words), with the two delimiters as separate tokens; an empty quotation has no text token and still parses. Text inside a word, pause-delimited or erroneous-Lojban quotation likewise comes back as exactly the words or run written there. A sentence containing an ordinary delimited, single-word or word-list quotation as an argument parses, with the quotation's pieces as leaves of one quotation node.",
 ["inputs"],"all quoted contents not containing the delimiter, all delimiters, all spacings",
 "Tests quote a handful of English phrases; fidelity is quantified over all content.",
 [L,G,D],[("quote assembly",L+": next_delimited_quote"),("quotation grammar",G+": ZoiSumti, ZoSumti, LohuSumti")],["token spans and tree leaves versus the generated quotation"])
p("C09","Lexing errors are exact and final",
 "Lexing fails exactly when a delimited quotation has no delimiter, is never closed, or a pause-delimited quotation has no content, and in no other case. The error names which of these happened and the exact position of the quoting word (and of the unmatched opening delimiter); all tokens before the failing quotation's missing piece are delivered first. After the error nothing more is produced, however often one asks.",
 ["inputs","histories"],"all texts cut off at every point inside every kind of quotation",
 "Tests check six truncated texts; the error depends on where exactly the text ends and on what preceded the quotation.",
 [L],[("error construction and Done state",L+": Error, State::Done")],["items of lex up to and beyond the error"])
p("C10","Every known word has its one dictionary class, however it is spelled",
 "Every cmavo of the dictionary gets the class and the experimental mark the dictionary gives it, whether it is written with apostrophes or h and with commas inserted anywhere, whatever its length; hesitation y of any length is hesitation. Any other word is classified by its form alone (name, unknown cmavo, gismu, fu'ivla, lujvo, or unrecognised). Class names follow the convention of capitals with a small h, and are distinct.",
 ["inputs"],"all dictionary cmavo and all their spellings, all non-dictionary words and near misses",
 "Tests touch perhaps 150 of 1,500 dictionary entries in one spelling each; a wrong or dropped entry or a length limit is invisible to them.",
 [C,DI,SM,R],[("classification table",C),("names",DI),("fundamentally experimental classes",SM)],["Selmaho::classify and as_repr over the whole vocabulary, its spellings and near misses"])
p("C11","The tree holds every token exactly once and in order",
 "Whenever a token sequence parses, reading the tree's leaves from left to right gives exactly the tokens of the input: each once, in order, with the same position and experimental flag and named after the token's class (quotation delimiters and texts named as such). No token is dropped, duplicated or reordered, and no leaf is invented.",
 ["inputs"],"all accepted token sequences",
 "The test suite asserts that sentences parse, and compares no more than the shape of a few; a field lost from traversal is invisible.",
 [TN,DT,G,GS,GH],[("derived traversal",DT),("child traversal of options, slices, tuples",TN),("hand-written nodes",G+": ZoiDelimiter, ZoiText; "+GH+": Separated")],["for_each_child traversal of Cst::root"])
p("C12","Every node's summary agrees with what it contains",
 "For every node of every tree, the start and end positions are those of its first and last token, both absent exactly when it contains no token; it is marked experimental exactly if some token in it is. Consequently children lie within their parent, in order and without overlap, and the text of a node can always be sliced from the input. Asking repeatedly, or in any order, gives the same answers.",
 ["inputs"],"all nodes of all accepted token sequences",
 "No existing test looks at a node's position or flag.",
 [TN,DT,GH,G,GS],[("derived summaries",DT+": start_location, end_location, experimental"),("summaries of containers",TN),("Separated",GH)],["name/experimental/start_location/end_location of every node"])
p("C13","Texts are accepted and structured exactly as the grammar prescribes",
 "A token sequence is accepted exactly if the documented grammar (the ordered-choice CLL/camxes-style grammar, its terminators elidable as there) accepts it, and its tree has exactly the nodes, alternatives and attachment the grammar's first-match derivation gives. This covers all of it: sentences, connectives, tags and tenses, sumti and relative clauses, quotations, tanru, abstractions, mekso, free modifiers, vocatives, lerfu and zei/bu compounds, and indicators.",
 ["inputs"],"all token sequences, grammatical or not",
 "Some 1,500 tests assert only that sample sentences are accepted; neither rejection nor structure is checked, and rule interactions are unbounded.",
 [G,GM,GC,GH,GS,PT,DP,CM],[("grammar types with derived parsers",G+", "+GM+", "+GC),("derive macro: sequence, ordered choice, not, cut, postcond",DP),("token types with emphasis, indicators and compound guards",GS)],["acceptance and full tree, compared with an independent memoised PEG interpreter"])
p("C14","Parse errors point at the offending token",
 "When a token sequence is rejected, the reported location is a suffix of that very sequence, and it starts at the first token the grammar cannot place after the longest reading it commits to, or, when a construct that must be closed is not, at the token found instead of its closing word (the end of input if there is none). An error that names the token it found names the first token of that location.",
 ["inputs"],"all rejected token sequences",
 "The tests check no error locations.",
 [E,CM,GS,GH,G,DP],[("location carried with each error",E+": WithLocation"),("all-input check",CM+": Cst::parse"),("cut points",GC+", "+G)],["location and kind of the error returned by Cst::parse"])
p("C15","Indicators and emphasis are transparent to structure",
 "Adding an attitudinal word right after any ordinary word of an accepted text, or an emphasis marker right before one, keeps the text accepted and leaves its tree unchanged except for the added indicator or marker inside that word's node. Ordinary words are all words outside quotations that are not quoting, marking or compounding words or parts of a letter or zei compound. (An indicator may not be put directly before an indicator-scope opener, and nothing counts from the end-of-text word on.)",
 ["inputs"],"all accepted texts and all eligible word positions",
 "It relates two parses at every word position of every sentence.",
 [GS,G],[("word types with leading emphasis and trailing indicators",GS+": token_types!"),("indicators",G+": Indicators, Indicator")],["trees of a text and of its decorated variants"])
p("C16","Sentences and paragraphs compose",
 "If two texts are accepted on their own and no quotation, parenthesis or sentence group is left open in the first, then joining them with the sentence separator or the paragraph separator (when neither part ends or begins with a separator of its own and the second does not begin with a connective that would bind to the separator) is accepted too, and its tree holds the sentences of the first followed by those of the second, each with the structure it has alone.",
 ["inputs"],"all pairs of accepted texts closed in this sense",
 "It relates three parses; tests look at one text at a time.",
 [G,GH],[("paragraph and sentence lists",G+": Text, Paragraphs, Paragraph, ParagraphItem")],["trees of texts and of their concatenation"])
p("C17","Analysis is a pure function of its input",
 "The words, tokens, tree or error of a text depend on nothing but the text: not on what was analysed before, in the same arena or another, not on other threads analysing at the same time, not on where in memory the text lies or what surrounds it, and not on whether logging is enabled or at which level. Trees built earlier in an arena stay valid and unchanged while more is parsed into it.",
 ["histories","schedules","configurations"],"all histories of analyses, thread schedules, arenas, memory placements and log levels",
 "Each test analyses one text in a fresh state on one thread.",
 [R,CM,AR,GH,D,L],[("no global state except the trace depth",R+": PARSER_LEVEL"),("arena allocation",AR+", "+GH)],["digests of all results across repeated, interleaved and concurrent runs"],
 [("PARSER_LEVEL","per-thread depth of rule tracing",R)])
p("C18","No memory errors, no leaks",
 "Analysing any sequence of texts performs no out-of-bounds, use-after-free, misaligned or otherwise undefined memory access, and once the results and their arena have been dropped, all memory that was allocated for them has been released. Memory held by a parse does not outlive its arena, including when the parse fails.",
 ["histories","inputs"],"all sequences of analyses with results kept, dropped and rejected in any order",
 "Plain test builds cannot see undefined behaviour or leaks.",
 [GH,CM,AR,SP,R],[("arena slices filled from temporary vectors",GH+": many0, many1"),("pointer-to-offset arithmetic",SP+": from_embedded_slice; "+R)],["allocator balance, AddressSanitizer, Miri"])
p("C19","Spans behave as byte ranges",
 "For all positions up to the largest representable one, a span behaves exactly like the set of byte positions from its start up to but excluding its end: length, emptiness, membership, gap between two spans, and overlap (symmetric; an empty span overlaps only a span that strictly encloses it) agree with that set, and none of them panics. Cutting a text by a span gives the prefix, middle and suffix that rebuild the text; each of the three is refused exactly when an edge of the span that bounds it lies outside the text or inside a character; the span of an embedded piece of text cuts out that same piece.",
 ["inputs"],"all spans, pairs of spans and texts, including empty, touching and extreme ones",
 "The unit test samples ten pairs; empty spans at zero and extreme positions are not among them.",
 [SP],[("span arithmetic",SP)],["results of all public span operations versus a byte-set model"])
p("C20","Words and tokens are produced lazily with bounded look-ahead",
 "Taking the first few words or tokens of a text costs work and memory that depend on the runs read so far and not on how much text follows. Going through a whole text of many short runs takes time proportional to its length, memory that does not grow with the number of runs already passed, and stack that does not grow with it either.",
 ["inputs"],"all texts, up to millions of runs, separators or commas",
 "One test feeds 100,000 comma runs; nothing measures work, memory or laziness.",
 [D,L],[("chunk-wise lazy iteration",D+": Decomposer::next"),("lexer pulls one word at a time",L)],["allocator high-water mark, CPU time, rule events, stack use per pulled item"])
p("C21","Rule tracing is well nested and accounts for every rule",
 "With trace logging on, the rule messages of each thread form a balanced, properly nested sequence: every rule entered is left exactly once, under the same name, with the indentation of its depth and an outcome, and the depth is back to zero when each analysis call returns, whatever the text and whether or not the analysis succeeded. Messages of one thread are not affected by what others do.",
 ["inputs","schedules","histories"],"all texts, mixtures of calls and threads",
 "No test turns tracing on.",
 [R,ML],[("enter/exit wrapper",R+": debug_rule_start!, debug_rule_end!; "+ML+": debug_rule"),("thread-local depth",R+": PARSER_LEVEL")],["stream of log records captured by a logger"],
 [("PARSER_LEVEL","per-thread depth",R)])
p("C22","The command-line tool reports the analysis of its input exactly",
 "For any text on standard input, the command-line program prints the words, the tokens, and the tree (or the lexing error, or the place of the parse error) that the morphology, the quotation rules and the grammar give for the trimmed text, each only when asked for, with names, experimental marks, positions and quoted text exact and children indented under their parents. Collapsing changes only single-child chains. It exits successfully without panicking for every text and every combination of switches.",
 ["inputs","configurations"],"all texts and all combinations of switches",
 "The example program is only compiled by the tests, never run.",
 [EX],[("printing and collapse",EX+": print_tree_node, DebugWithIterator"),("input handling",EX+": repl")],["standard output and exit status versus a rendering of reference words, tokens and trees"])
p("C23","A text equals its spelled-out form",
 "Writing the words that a text (without verbatim quotations) was split into separately, with pauses between them, gives the same words again, the same tokens, and the same acceptance and tree shape as the original. Splitting is thus stable: no word found in a text falls apart, merges or changes class when written on its own.",
 ["inputs"],"all texts without verbatim quotations",
 "It relates each text to a second one derived from its own result; the tests never re-split.",
 [D,R,C],[("fall-off loop",D+": decompose_single"),("context conditions in rules",R+": post_word, stress, coda")],["words, tokens and trees of a text and of its spelled-out form"])
p("C24","Elided terminators can be written out",
 "Where an accepted text leaves out an elidable terminator, writing all the elided terminators of the constructs closing at a place, innermost first, keeps the text accepted and gives the same tree with just those terminators added (except where a ke ... ke'e group joined to an operator by a connective ends). In particular quotations, parentheses, descriptions, abstractions, relative clauses and bound arguments mean the same with and without their optional closing words.",
 ["inputs"],"all accepted texts and all elision points of the listed constructs",
 "It relates two parses at every elision point; tests only assert acceptance.",
 [G,GM],[("optional terminator fields",G+": ku, kei, ku'o, ge'u, be'o, li'u, toi, ...")],["trees of a text and of its fully terminated variant"])
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
print(len(P))
