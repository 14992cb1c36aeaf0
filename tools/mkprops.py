#!/usr/bin/env python3
"""Writes properties.jsonl (the list is kept here so that it is easy to edit)."""
import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or []))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
CS="charstream.go"
RULES=["rule_block.go","rule_choice.go","rule_concatenate.go","rule_eof.go","rule_group.go","rule_option.go","rule_reference.go","rule_repetition.go","rule_terminal_char.go","rule_terminal_chars.go","rule_terminal_range.go","rule_terminal_string.go"]
p("C01","Character streams deliver the text exactly once, in order, then EOF",
 "Reading a stream returns the code points of its text in order, each exactly once, and from then on the end-of-file value for ever. Looking ahead returns what the next read will return and consumes nothing. The cursor always equals the number of code points consumed.",
 ["inputs","histories"],"every text, and every sequence of stream operations",
 "Tests read a few short texts; the claim is over all texts and all interleavings of read, look-ahead, match and skip operations.",
 [CS],[("reading and look-ahead of a string stream","charstream.go CharstreamString.Next/Peek/next/Cursor"),("reading and look-ahead of a stream with chars given back","charstream.go CharstreamPrepend.Next/Peek/next/peek/Cursor")],
 [("cursor","number of code points consumed","charstream.go CharstreamString.cursor, CharstreamPrepend.cursor"),("chars","the text","charstream.go CharstreamString.chars")])
p("C02","Skipping spaces and matching consume exactly the chars they report",
 "Skipping white space consumes and returns the longest run of white-space characters at the cursor and nothing else. Matching a text succeeds exactly when the stream continues with that text, consumes it and returns it; when it fails it has consumed and returned the common prefix plus at most the one character that differs.",
 ["inputs","histories"],"every text, cursor, white-space run and text to match, on plain streams and on streams with chars given back",
 "Tests match a handful of literals at the start of short texts and never at a boundary between given-back and fresh characters chosen by the input.",
 [CS],[("space skipping","charstream.go SkipSpaces of both streams"),("matching","charstream.go Match of both streams")])
p("C03","Line and column positions are exact",
 "The position of a consumed character is one plus the number of newlines before it, and its distance from the last of those newlines (or from the start of the text). The current position is that of the next character, and there is none at end of file. A lookup of an index that is negative or not consumed yet yields no position, index 0 excepted.",
 ["inputs","histories"],"every text, every index, after every sequence of stream operations",
 "Tests look up a few positions in one text; line tracking is incremental and lookups may come after any amount of reading.",
 [CS],[("incremental newline map","charstream.go positionMap.update"),("lookup","charstream.go positionMap.lookup, Position, PositionLookup")],
 [("lines","index of the last known char of every line","charstream.go positionMap.lines")])
p("C04","Giving characters back to a stream is transparent",
 "After characters just read are given back to a stream, the resulting stream behaves, for every later operation, like the original stream at the point before those characters were read: same characters, same cursor, same positions. Nesting to any depth changes nothing.",
 ["inputs","histories"],"every text, every given-back run, every nesting depth and operation sequence",
 "Tests cover one level of give-back on one text; evaluation nests give-backs to depths decided by grammar and input.",
 [CS],[("stream over given-back chars","charstream.go newCharstreamPrepend and CharstreamPrepend")])
p("C05","Streams are safe for concurrent use",
 "Every operation on a stream is one critical section of that stream's lock: mutable state is only read with the lock held and only written with it held exclusively, and the lock is released on every path. Concurrent operations therefore behave like some sequential order of them.",
 ["schedules","histories"],"every schedule of concurrent operations on a shared stream",
 "No test is concurrent; a missing or weakened lock shows only under particular interleavings.",
 [CS],[("locking in every method","charstream.go CharstreamString.*, CharstreamPrepend.*")],[("lock","guards the mutable fields of a stream","charstream.go CharstreamString.lock, CharstreamPrepend.lock")])
p("C06","Evaluation accounts for every character it reads",
 "Whatever rule is evaluated on whatever text, the characters the result reports as read are exactly those consumed from the stream, and the characters reported as unused are the tail of them. A result without a node reports everything it read as unused, so that giving the unused characters back continues the text without loss, repetition or reordering.",
 ["inputs","programs"],"every well-formed rule, every text, start position and leading-space mode",
 "Tests compare only the text of a few resulting trees; a lost or repeated look-ahead character needs particular combinations of nested rules and texts.",
 RULES+["rule.go","grammar.go"],[("read/unused bookkeeping","Eval of every rule type, rule.go mostGreedy")],[("CharsRead/CharsUnused","chars consumed, and the tail of them not used by the node","rule.go EvalResult")])
p("C07","Terminal rules match exactly their literal",
 "A character, character-sequence, string, range or end-of-file rule matches exactly when the text at the cursor, after the white space that the leading-space mode lets it skip, is its literal (or a character within its range, or the end); the node carries that literal and the match uses nothing beyond it. Strings may skip leading white space unless told not to, other terminals only when told to, and a literal beginning with white space matches the end of the skipped run.",
 ["inputs","programs"],"every literal or range, every text, cursor and leading-space mode",
 "Tests use a few ASCII literals; white space inside literals, range bounds and modes multiply to an unbounded space.",
 ["rule_terminal_char.go","rule_terminal_chars.go","rule_terminal_range.go","rule_terminal_string.go","rule_eof.go","rule.go"],[("terminal evaluation","Eval of the terminal rules"),("leading white space of a literal","rule.go leadingWhiteSpace")])
p("C08","Choices pick the longest match of the first matching group",
 "A choice looks at its ordered groups in order and takes the first one with a matching alternative; within it the alternative using the most characters wins. It fails with an ambiguity error exactly when that maximum is shared, and fails when nothing matches. The order of alternatives within a group never matters.",
 ["inputs","programs"],"every set of alternatives and groups, in every order, and every text",
 "Tests have choices whose alternatives mostly exclude each other; ties and prefixes in arbitrary order are not covered.",
 ["rule_choice.go"],[("group and maximum selection","rule_choice.go ChoiceRule.Eval")])
p("C09","Repetitions are greedy and respect their bounds; options always match",
 "A repetition takes as many consecutive matches as there are, up to its maximum, matches when it found at least its minimum, and yields its matches in order as children. An option always matches: with its rule's node if that matches, else empty and using nothing.",
 ["inputs","programs"],"every repeated rule, bounds and text",
 "Tests repeat a few rules a few times with small bounds.",
 ["rule_repetition.go","rule_option.go"],[("repetition","rule_repetition.go RepetitionRule.Eval"),("option","rule_option.go OptionRule.Eval")])
p("C10","Concatenations match their rules contiguously and in order",
 "A concatenation matches exactly when each of its rules matches, in order, each starting where the previous one stopped using characters; its children are their nodes, in order. White space may be skipped between two neighbours exactly when the earlier one is not sticky, an unmatched option or empty repetition leaving that decision as it was only where it is an option.",
 ["inputs","programs"],"every list of rules and every text",
 "Tests concatenate terminals mostly; look-ahead between neighbours and optional parts depend on the input.",
 ["rule_concatenate.go","rule_group.go","rule_reference.go"],[("concatenation","rule_concatenate.go ConcatenateRule.Eval"),("group and reference","rule_group.go, rule_reference.go")])
p("C11","Blocks run from their opening to the first unescaped close",
 "A block matches text that begins with its opening rule and ends with the first match of its closing rule that is not directly preceded by an escape; its children are opening, content and (unless the close is virtual) close. It fails if excluded text occurs unescaped before that, or if the close is missing. With a virtual close the characters of the close are not used by the block.",
 ["inputs","programs"],"every opening, escape, exclusion and closing rule, and every text",
 "Tests use a few comment and quote styles; multi-character delimiters overlapping with content are decided by the input.",
 ["rule_block.go","rule.go"],[("block scan","rule_block.go BlockRule.Eval"),("exclusion","rule.go mostGreedy")])
p("C12","A successful parse covers the whole input",
 "When parsing a stream succeeds, its top-level nodes come from root rules, each evaluated exactly where the previous one stopped and each the unique longest match there, and together they use up the input to its end. When at some point no root rule matches, or the longest match is shared, parsing fails with an error and returns no tree.",
 ["inputs","programs"],"every grammar and every text",
 "Tests parse fixed samples that succeed; partial matches followed by unexpected text and multi-root grammars are barely sampled.",
 ["grammar.go"],[("parse driver","grammar.go Grammar.EvalRaw, Eval")])
p("C13","The tree holds the text that was parsed",
 "For grammars without block escapes, the text held by the tree of a successful evaluation, white space aside, is exactly the consumed part of the input, white space aside: nothing missing, repeated or reordered.",
 ["inputs","programs"],"every grammar without block escapes and every text",
 "Tests compare the text of a dozen trees.",
 RULES+["node.go","grammar.go"],[("node construction","Eval of every rule type"),("text of a tree","node.go Node.Text, ast.go AST.Text")])
p("C14","Evaluation terminates",
 "Evaluating any grammar that is not left-recursive on any text terminates, also when rules match empty text or fail; so does embedded evaluation.",
 ["inputs","programs"],"every grammar without left recursion, every text",
 "A test that does not hang says nothing about other grammars; empty matches inside repetitions, blocks and root rules are not tested.",
 RULES+["grammar.go","rule.go"],[("progress of loops and recursion","all evaluation loops and the recursion through rules")])
p("C15","Evaluation and tree operations never panic",
 "Evaluating a well-formed grammar on a stream, and reading or simplifying the resulting tree, never indexes out of range, dereferences nil or otherwise panics, whatever the text; rules that are referenced but not defined yield an error.",
 ["inputs","programs"],"every grammar accepted by the loader and every text",
 "Tests see a few dozen texts; index arithmetic over look-ahead buffers fails only for particular ones.",
 RULES+["rule.go","grammar.go","node.go","ast.go",CS],[("index and nil safety","all functions reachable from evaluation")])
p("C16","Results do not depend on map iteration order",
 "Parsing the same text with the same grammar always gives the same outcome: success or failure, and on success the same tree, whatever order the runtime visits the grammar's rules in.",
 ["inputs","programs","schedules"],"every grammar with any number of root rules, every text, every iteration order",
 "Go randomises map order per run; a test run samples one order per loop.",
 ["grammar.go"],[("selection among root rules","grammar.go Grammar.EvalRaw"),("classification of rules","grammar.go Grammar.Validate")])
p("C17","Nodes carry their rule's name, type and annotations",
 "Each node carries the name of the rule that produced it and its virtual, non-data and token annotations. An annotation on a reference inverts the corresponding annotation of the node it refers to and leaves the others alone.",
 ["inputs","programs"],"every rule type, name and combination of annotations",
 "Tests print a few trees; combinations of annotations on references and definitions are not enumerated.",
 RULES,[("node flags","Eval of every rule type"),("inversion","rule_reference.go ReferenceRule.Eval"),("annotation storage","rule.go ruleBase.setAnnotation")])
p("C18","Removing virtual and non-data nodes removes exactly those",
 "Removing virtual (or non-data) nodes from a tree removes exactly the subtrees whose root is so marked, at every depth below the top, keeps all other nodes in their order, and changes nothing else.",
 ["inputs"],"every tree",
 "Tests count nodes for a few trees.",
 ["node.go","ast.go"],[("removal","node.go RemoveVirtualNodes, RemoveNonDataNodes; ast.go likewise")])
p("C19","Merging and simplifying keep the text of the tree",
 "Merging sticky nodes and removing redundant nodes keep the text of the tree, white space aside, in order; merging joins only neighbouring siblings that are both sticky and neither a token, and never merges the parts of a block.",
 ["inputs"],"every tree",
 "Tests count nodes for a few trees.",
 ["node.go","ast.go"],[("merging","node.go MergeStickyNodes"),("simplification","node.go RemoveRedundantNodes")])
p("C20","Validation finds undefined references and roots; rejected rules leave no trace",
 "Validation succeeds exactly when every referenced rule is defined; afterwards the root rules are exactly the defined rules no accepted rule refers to, and the terminal rules exactly those referring to none. A rule that is rejected (bad name, duplicate, syntax error) leaves the grammar as it was.",
 ["inputs","histories"],"every sequence of rule additions and validations",
 "Tests load grammars in one go and look at a few outcomes, never at additions after a rejected rule.",
 ["grammar.go","rule_reference.go"],[("usage records","grammar.go AddUsage, removeUsages, ParseRule"),("validation","grammar.go Validate")],[("usages","which rules refer to a rule","grammar.go Grammar.nonRoots")])
p("C21","Evaluation does not modify the grammar",
 "Evaluating leaves the grammar, its rules and the text of the stream unmodified, so a grammar can be reused and shared by concurrent evaluations of different streams.",
 ["inputs","histories","schedules"],"every grammar, text and sequence of evaluations",
 "Tests evaluate a grammar a few times in sequence and never compare it before and after.",
 RULES+["rule.go","grammar.go"],[("frame of evaluation","Eval of every rule type, Grammar.EvalRaw, EvalRule, EvalEmbed")])
p("C22","Literals mean what the notation says",
 "Loading a quoted literal yields exactly its characters: \\uXXXX is the code point with that hexadecimal value, a backslash before any other character is that character, everything else stands for itself; ranges take their two ends the same way. An unterminated literal or malformed escape is an error.",
 ["inputs"],"every literal in a rule definition",
 "Tests use a few escapes.",
 ["rule_terminal_char.go","rule_terminal_string.go","rule_terminal_range.go"],[("decoding","inChar, inString, inRange, inUnicode, parseUnicodeEscape")])
p("C23","Repetition specifications mean what the notation says",
 "`*` or nothing is zero or more, `+` one or more, `<m,n>` at least m and at most n times, with 0 or nothing for n meaning no maximum and a missing m meaning 0. Malformed numbers, or a maximum below the minimum, are errors.",
 ["inputs"],"every repetition specification",
 "Tests use a handful of specifications.",
 ["rule_repetition.go"],[("decoding","inRepetition, inRepeatSpec")])
p("C24","Nodes know where their text begins",
 "The position of a terminal node or of a block's content is the line and column, in the original input, of the first character of its text, white space skipped before it left aside; empty content stands where it would begin. Every other node begins where its first part that has a position begins, and a node without position accounts for white space at most.",
 ["inputs","programs"],"every grammar and text",
 "Tests print positions of a few nodes.",
 RULES+[CS],[("node positions","Eval of every rule type"),("lookup","charstream.go")])
p("C25","Embedded evaluation tiles its text",
 "Embedded evaluation partitions the text in order into matches of the rule and the text runs between them: a match is taken wherever the rule matches some text, scanning from left to right, and every other character ends up in a text run. Nothing is lost or repeated, and it fails only for an unknown rule.",
 ["inputs","programs"],"every rule and text",
 "Tests count nodes of a few samples.",
 ["grammar.go"],[("embedded scan","grammar.go Grammar.EvalEmbed")])
p("C26","White space is Unicode white space",
 "A character is treated as white space exactly when Unicode gives it the White_Space property.",
 ["inputs"],"every code point",
 "Tests use ASCII blanks.",
 ["space.go"],[("white-space table","space.go whiteSpaceMap, IsWhiteSpace")])
p("C27","Loading a grammar is total and yields well-formed rules",
 "Loading any text as a grammar terminates without panicking, with either an error or a grammar whose rules are all well-formed: no missing parts, at least two rules in a concatenation and two alternatives in a choice, and every rule registered under its valid name. A rule name is accepted exactly when it is a letter followed by letters, digits and underscores and is not taken yet.",
 ["inputs"],"every byte string offered as grammar text or rule definition",
 "Tests load a few dozen grammars, a handful of them malformed.",
 ["grammar.go","rule.go"]+RULES,[("rule parser","grammar.go parse, parseOne and the in* functions"),("names","rule.go validateRuleName")])
p("C28","Node counts agree with the tree",
 "The node, token and sticky-node counts of a tree are the numbers of its nodes, its leaves, and its sticky nodes; an absent tree counts zero.",
 ["inputs"],"every tree",
 "Tests compare counts of a few trees.",
 ["node.go","ast.go"],[("counting","node.go CountNodes, CountTokens, CountStickyNodes; ast.go likewise")])
p("C29","Printed rules load back as the same rules",
 "Printing a rule in the grammar notation and loading the result gives a rule that matches the same texts.",
 ["programs"],"every well-formed rule",
 "Tests print a few rules.",
 RULES,[("printing","String of every rule type")])
with open(__file__.rsplit('/',2)[0]+'/properties.jsonl','w') as f:
    for d in P:
        assert len(d["title"])<=80,(d["id"],len(d["title"]))
        f.write(json.dumps(d)+"\n")
