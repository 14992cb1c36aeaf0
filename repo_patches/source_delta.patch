From 46d56b6fa6ca35ce56f0052bb07c4bd64c223872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:58 +0000
Subject: [PATCH 01/26] fix: concatenation no longer repeats or loses chars
 given back by a child rule

---
 rule_concatenate.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/rule_concatenate.go b/rule_concatenate.go
index ab32e3b..80d07ce 100644
--- a/rule_concatenate.go
+++ b/rule_concatenate.go
@@ -37,7 +37,8 @@ func (inst *ConcatenateRule) Eval(grammar *Grammar, charstream ICharstream, flag
 	}
 	cs := charstream
 	for _, rule := range inst.rules {
-		cs = newCharstreamPrepend(cs, evalResult.CharsUnused)
+		// CharsUnused are always the chars read just before the cursor of charstream
+		cs = newCharstreamPrepend(charstream, evalResult.CharsUnused)
 		result := rule.Eval(grammar, cs, flagLeadingSpaces)
 		//
 		// Update evalResult.CharsRead and evalResult.CharsUnused
@@ -56,9 +57,6 @@ func (inst *ConcatenateRule) Eval(grammar *Grammar, charstream ICharstream, flag
 		} else {
 			resultCharsUsed := result.charsUsed()
 			evalResult.CharsUnused = evalResult.CharsUnused[len(resultCharsUsed):] // unusedLeft
-			if len(evalResult.CharsUnused) < len(resultCharsUsed) {
-				evalResult.CharsUnused = result.CharsUnused
-			}
 		}
 
 		if !result.Sticky {
-- 
2.43.0


From 1b321dee6d08e161da41df1ab835953432576d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:59 +0000
Subject: [PATCH 02/26] fix: repetition no longer repeats or loses chars given
 back by its rule

---
 rule_repetition.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/rule_repetition.go b/rule_repetition.go
index 758767a..f9016a1 100644
--- a/rule_repetition.go
+++ b/rule_repetition.go
@@ -47,7 +47,8 @@ func (inst *RepetitionRule) Eval(grammar *Grammar, charstream ICharstream, flagL
 	var nodes []*Node // all found matched nodes
 	rule := inst.rule
 	for {
-		cs = newCharstreamPrepend(cs, evalResult.CharsUnused)
+		// CharsUnused are always the chars read just before the cursor of charstream
+		cs = newCharstreamPrepend(charstream, evalResult.CharsUnused)
 		if cs.Peek() == EOFChar {
 			break
 		}
@@ -69,9 +70,6 @@ func (inst *RepetitionRule) Eval(grammar *Grammar, charstream ICharstream, flagL
 		} else {
 			resultCharsUsed := result.charsUsed()
 			evalResult.CharsUnused = evalResult.CharsUnused[len(resultCharsUsed):] // unusedLeft
-			if len(evalResult.CharsUnused) < len(resultCharsUsed) {
-				evalResult.CharsUnused = result.CharsUnused
-			}
 		}
 
 		if !result.Sticky {
-- 
2.43.0


From 49688254910fcd0f23ed3691749bf29642b08ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:00 +0000
Subject: [PATCH 03/26] fix: repetition of a rule that matches empty text
 terminates

---
 rule_repetition.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rule_repetition.go b/rule_repetition.go
index f9016a1..df2d5ee 100644
--- a/rule_repetition.go
+++ b/rule_repetition.go
@@ -92,6 +92,10 @@ func (inst *RepetitionRule) Eval(grammar *Grammar, charstream ICharstream, flagL
 		if inst.max > 0 && len(nodes) == int(inst.max) { // found max number of matches
 			break
 		}
+		if result.countCharsUsed() == 0 && len(nodes) >= int(inst.min) {
+			// an empty match will repeat forever
+			break
+		}
 	}
 
 	if len(nodes) < int(inst.min) {
-- 
2.43.0


From 028daa3971d1a8815e9f094c28c2a44b127ab68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:01 +0000
Subject: [PATCH 04/26] fix: choice is ambiguous only when the longest match is
 tied

---
 rule_choice.go | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/rule_choice.go b/rule_choice.go
index b7683bf..9a750f9 100644
--- a/rule_choice.go
+++ b/rule_choice.go
@@ -79,30 +79,32 @@ func (inst *ChoiceRule) Eval(grammar *Grammar, charstream ICharstream, flagLeadi
 			break
 		} else { // we found multiple matches, get the one that is most greedy, ie. uses most chars
 			maxUsed := 0
+			var resultTied *EvalResult // uses as many chars as resultFound
 			for _, result := range resultsMatched {
 				countCharsUsed := result.countCharsUsed()
 				if countCharsUsed < maxUsed {
 					continue
 				}
-				if countCharsUsed == maxUsed {
-					if resultFound == nil {
-						resultFound = result
-						continue
-					}
-					// we found ambiguity
-					var buf strings.Builder
-					if inst.name == "" {
-						buf.WriteString("ambiguity found:")
-					} else {
-						buf.WriteString(fmt.Sprintf("rule %s: ambiguity found", inst.name))
-					}
-					buf.WriteString(fmt.Sprintf("\t\n%s: %s", resultFound.Node.RuleName, string(resultFound.Node.Text())))
-					buf.WriteString(fmt.Sprintf("\t\n%s: %s", result.Node.RuleName, string(result.Node.Text())))
-					evalResult.Error = errors.New(buf.String())
-					return evalResult
+				if countCharsUsed == maxUsed && resultFound != nil {
+					resultTied = result
+					continue
 				}
 				maxUsed = countCharsUsed
 				resultFound = result
+				resultTied = nil
+			}
+			if resultTied != nil {
+				// we found ambiguity
+				var buf strings.Builder
+				if inst.name == "" {
+					buf.WriteString("ambiguity found:")
+				} else {
+					buf.WriteString(fmt.Sprintf("rule %s: ambiguity found", inst.name))
+				}
+				buf.WriteString(fmt.Sprintf("\t\n%s: %s", resultFound.Node.RuleName, string(resultFound.Node.Text())))
+				buf.WriteString(fmt.Sprintf("\t\n%s: %s", resultTied.Node.RuleName, string(resultTied.Node.Text())))
+				evalResult.Error = errors.New(buf.String())
+				return evalResult
 			}
 			break
 		}
-- 
2.43.0


From 1ab083cf8ceae1d0e232b7c8c8543f84b82e90ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:02 +0000
Subject: [PATCH 05/26] fix: an ambiguous choice gives back the chars it read

---
 rule_choice.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rule_choice.go b/rule_choice.go
index 9a750f9..4d626a3 100644
--- a/rule_choice.go
+++ b/rule_choice.go
@@ -103,6 +103,7 @@ func (inst *ChoiceRule) Eval(grammar *Grammar, charstream ICharstream, flagLeadi
 				}
 				buf.WriteString(fmt.Sprintf("\t\n%s: %s", resultFound.Node.RuleName, string(resultFound.Node.Text())))
 				buf.WriteString(fmt.Sprintf("\t\n%s: %s", resultTied.Node.RuleName, string(resultTied.Node.Text())))
+				evalResult.CharsUnused = evalResult.CharsRead
 				evalResult.Error = errors.New(buf.String())
 				return evalResult
 			}
-- 
2.43.0


From 9428bfb18c46d09a88d04a751d426a49713e4458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:04 +0000
Subject: [PATCH 06/26] fix: text excluded by more than one exclude rule is not
 allowed in a block

---
 rule.go       | 24 ++++++++++++++++--------
 rule_block.go |  8 ++++++++
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/rule.go b/rule.go
index 6a413d8..1aaf8ed 100644
--- a/rule.go
+++ b/rule.go
@@ -270,7 +270,7 @@ func validateRuleName(ruleName string) (validRuleName string, err error) {
 }
 
 // Given a list of rules, find the most greedy match. If no rule matches, return a evalResult with
-// nil node.
+// nil node. If the most greedy match is ambiguous, the evalResult also has an error.
 func mostGreedy(grammar *Grammar, charStream ICharstream, flagLeadingSpaces int, rules []IRule) *EvalResult {
 	evalResult := &EvalResult{}
 	var resultsMatched []*EvalResult
@@ -298,22 +298,30 @@ func mostGreedy(grammar *Grammar, charStream ICharstream, flagLeadingSpaces int,
 	} else { // we found multiple matches, get the one that is most greedy, ie. uses most chars
 		maxUsed := 0
 		var maxResult *EvalResult
+		var tiedResult *EvalResult // uses as many chars as maxResult
 		for _, result := range resultsMatched {
 			countCharsUsed := result.countCharsUsed()
 			if countCharsUsed < maxUsed {
 				continue
 			}
 			if countCharsUsed == maxUsed && maxResult != nil {
-				// we found ambiguity
-				var buf strings.Builder
-				buf.WriteString("ambiguity found:")
-				buf.WriteString(fmt.Sprintf("\t\n%s", string(maxResult.Node.Text())))
-				buf.WriteString(fmt.Sprintf("\t\n%s", string(result.Node.Text())))
-				evalResult.Error = errors.New(buf.String())
-				return evalResult
+				tiedResult = result
+				continue
 			}
 			maxUsed = countCharsUsed
 			maxResult = result
+			tiedResult = nil
+		}
+		if tiedResult != nil {
+			// we found ambiguity
+			var buf strings.Builder
+			buf.WriteString("ambiguity found:")
+			buf.WriteString(fmt.Sprintf("\t\n%s", string(maxResult.Node.Text())))
+			buf.WriteString(fmt.Sprintf("\t\n%s", string(tiedResult.Node.Text())))
+			evalResult.Error = errors.New(buf.String())
+			evalResult.CharsRead = maxCharsRead
+			evalResult.CharsUnused = evalResult.CharsRead
+			return evalResult
 		}
 		resultFound = maxResult
 	}
diff --git a/rule_block.go b/rule_block.go
index cb40c07..ea7bd9b 100644
--- a/rule_block.go
+++ b/rule_block.go
@@ -135,6 +135,14 @@ func (inst *BlockRule) Eval(grammar *Grammar, charstream ICharstream, flagLeadin
 		cs = newCharstreamPrepend(cs, charsUnused)
 		if len(inst.excludes) > 0 {
 			resultExclude := mostGreedy(grammar, cs, NOT_SKIP, inst.excludes)
+			if resultExclude.Error != nil { // found more than one
+				evalResult.Error = resultExclude.Error
+				evalResult.ErrIdx = charstream.Cursor()
+				evalResult.CharsRead = append(charsUsed, content.Chars...)
+				evalResult.CharsRead = append(evalResult.CharsRead, resultExclude.CharsRead...)
+				evalResult.CharsUnused = evalResult.CharsRead
+				return evalResult
+			}
 			if resultExclude.Node != nil { // found one
 				if escaped {
 					charsUsed = append(charsUsed, resultExclude.charsUsed()...)
-- 
2.43.0


From eaf4a1674bb6d865b29e004946acd75368cc2e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:01 +0000
Subject: [PATCH 07/26] fix: block accounts for every char it reads exactly
 once and in order

---
 rule_block.go | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/rule_block.go b/rule_block.go
index ea7bd9b..2b7cd4a 100644
--- a/rule_block.go
+++ b/rule_block.go
@@ -71,7 +71,7 @@ func (inst *BlockRule) Eval(grammar *Grammar, charstream ICharstream, flagLeadin
 	}
 
 	cs := charstream
-	var charsUsed []rune
+	var charsUsed []rune // all chars used so far, in the order they are read
 	var charsUnused []rune
 
 	// check the open chars of the block text
@@ -96,16 +96,20 @@ func (inst *BlockRule) Eval(grammar *Grammar, charstream ICharstream, flagLeadin
 	}
 	node.ChildNodes = append(node.ChildNodes, content)
 	cs = newCharstreamPrepend(cs, charsUnused)
+	charsUnused = nil // now back in cs
 	content.Position = cs.Position()
 	var closeResult *EvalResult
 	var escapeChars []rune
 	for {
+		cs = newCharstreamPrepend(cs, charsUnused)
+		charsUnused = nil
+
 		// check if we have an escape as next match
 		escaped := false
 		escapeChars = nil
 		if inst.escape != nil { // evaluation escape
 			result = inst.escape.Eval(grammar, cs, NOT_SKIP) // do not skip space chars
-			if result.Node != nil {
+			if result.Node != nil && result.countCharsUsed() > 0 { // an empty match doesn't escape anything
 				charsUsed = append(charsUsed, result.CharsRead[:result.countCharsUsed()]...)
 				charsUnused = result.CharsUnused
 				escaped = true
@@ -133,13 +137,13 @@ func (inst *BlockRule) Eval(grammar *Grammar, charstream ICharstream, flagLeadin
 
 		// find exclude match(es)
 		cs = newCharstreamPrepend(cs, charsUnused)
+		charsUnused = nil
 		if len(inst.excludes) > 0 {
 			resultExclude := mostGreedy(grammar, cs, NOT_SKIP, inst.excludes)
 			if resultExclude.Error != nil { // found more than one
 				evalResult.Error = resultExclude.Error
 				evalResult.ErrIdx = charstream.Cursor()
-				evalResult.CharsRead = append(charsUsed, content.Chars...)
-				evalResult.CharsRead = append(evalResult.CharsRead, resultExclude.CharsRead...)
+				evalResult.CharsRead = append(charsUsed, resultExclude.CharsRead...)
 				evalResult.CharsUnused = evalResult.CharsRead
 				return evalResult
 			}
@@ -152,8 +156,7 @@ func (inst *BlockRule) Eval(grammar *Grammar, charstream ICharstream, flagLeadin
 				}
 				evalResult.Error = fmt.Errorf("text `%s` is not allowed in text block", string(resultExclude.charsUsed()))
 				evalResult.ErrIdx = charstream.Cursor()
-				evalResult.CharsRead = append(charsUsed, content.Chars...)
-				evalResult.CharsRead = append(evalResult.CharsRead, resultExclude.CharsRead...)
+				evalResult.CharsRead = append(charsUsed, resultExclude.CharsRead...)
 				evalResult.CharsUnused = evalResult.CharsRead
 				return evalResult
 			}
@@ -174,24 +177,23 @@ func (inst *BlockRule) Eval(grammar *Grammar, charstream ICharstream, flagLeadin
 			if !inst.virtualClose {
 				node.ChildNodes = append(node.ChildNodes, result.Node) // the 3rd child of block node is always close node
 			}
-			charsUsed = append(charsUsed, content.Chars...)
 			charsUsed = append(charsUsed, result.CharsRead[:result.countCharsUsed()]...)
 			break
 		} else {
 			content.Chars = append(content.Chars, escapeChars...)
 		}
 		cs = newCharstreamPrepend(cs, charsUnused)
+		charsUnused = nil
 		char := cs.Peek()
 		if char == EOFChar {
-			charsUsed = append(charsUsed, content.Chars...)
 			evalResult.Error = fmt.Errorf("missing %s at EOF", inst.close.desc())
 			evalResult.ErrIdx = charstream.Cursor()
 			break
 		}
 		char = cs.Next()
+		charsUsed = append(charsUsed, char)
 		content.Chars = append(content.Chars, escapeChars...)
 		content.Chars = append(content.Chars, char)
-		charsUnused = nil
 	}
 	evalResult.CharsRead = append(charsUsed, charsUnused...)
 	if evalResult.Error != nil {
-- 
2.43.0


From 9aede423c6bf273d20a1c39a4f246ddb850fb94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:03 +0000
Subject: [PATCH 08/26] fix: root rules are evaluated on the same text whatever
 the other root rules read

---
 grammar.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/grammar.go b/grammar.go
index c39d380..1ea030f 100644
--- a/grammar.go
+++ b/grammar.go
@@ -337,9 +337,9 @@ func (inst *Grammar) EvalRaw(charstream ICharstream) (*AST, error) {
 		}
 		resultsMatched := make(map[string]*EvalResult)
 		resultsError := make(map[string]*EvalResult)
-		var maxCharsRead []rune
+		maxCharsRead := charsUnused // the chars read so far but not used by any node
 		for name, ruleRecord := range inst.rootRules {
-			cs = newCharstreamPrepend(cs, maxCharsRead)
+			cs = newCharstreamPrepend(charstream, maxCharsRead)
 			result := ruleRecord.rule.Eval(inst, cs, flagLeadingSpaces)
 			if len(maxCharsRead) < len(result.CharsRead) {
 				maxCharsRead = result.CharsRead
-- 
2.43.0


From 147e754654571ac0bca6546296dc7f81dfd900f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:04 +0000
Subject: [PATCH 09/26] fix: ambiguity of root rules does not depend on the
 order they are evaluated in

---
 grammar.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/grammar.go b/grammar.go
index 1ea030f..90817d3 100644
--- a/grammar.go
+++ b/grammar.go
@@ -374,18 +374,22 @@ func (inst *Grammar) EvalRaw(charstream ICharstream) (*AST, error) {
 		default: // we found more than 1 matches, the most greedy one wins
 			maxCountCharsUsed := 0
 			var maxResult *EvalResult
+			var tiedResult *EvalResult // uses as many chars as maxResult
 			for _, result := range resultsMatched {
 				countCharsUsed := result.countCharsUsed()
 				if countCharsUsed == maxCountCharsUsed && maxResult != nil {
-					return nil, fmt.Errorf("ambiguity found: %s(\"%s\") vs %s(\"%s\")",
-						result.Node.RuleName, string(result.CharsRead),
-						maxResult.Node.RuleName, string(maxResult.CharsRead))
-				}
-				if countCharsUsed >= maxCountCharsUsed {
+					tiedResult = result
+				} else if countCharsUsed >= maxCountCharsUsed {
 					maxResult = result
 					maxCountCharsUsed = countCharsUsed
+					tiedResult = nil
 				}
 			}
+			if tiedResult != nil {
+				return nil, fmt.Errorf("ambiguity found: %s(\"%s\") vs %s(\"%s\")",
+					tiedResult.Node.RuleName, string(tiedResult.CharsRead),
+					maxResult.Node.RuleName, string(maxResult.CharsRead))
+			}
 			ast.Nodes = append(ast.Nodes, maxResult.Node)
 			if maxResult.Sticky {
 				flagLeadingSpaces = SUGGEST_NOT_SKIP
-- 
2.43.0


From 2df3bb5ddb5043012d2d06fcca5108fc15c01170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:05 +0000
Subject: [PATCH 10/26] fix: a root rule that matches empty text does not make
 evaluation run forever

---
 grammar.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/grammar.go b/grammar.go
index 90817d3..cd286c7 100644
--- a/grammar.go
+++ b/grammar.go
@@ -398,6 +398,10 @@ func (inst *Grammar) EvalRaw(charstream ICharstream) (*AST, error) {
 			}
 			charsUnused = maxCharsRead[maxResult.countCharsUsed():]
 		}
+		if len(charsUnused) == len(maxCharsRead) {
+			// an empty match will repeat forever
+			return nil, fmt.Errorf("must be %s: no text matched", inst.desc())
+		}
 		cs = charstream
 	}
 	if len(ast.Nodes) == 0 {
-- 
2.43.0


From 9920dea92d001cce7800e042b4f38626a7ae2512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:06 +0000
Subject: [PATCH 11/26] fix: char range rejects skipped white space beyond its
 end

---
 rule_terminal_range.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rule_terminal_range.go b/rule_terminal_range.go
index 18f02e8..c5a14a5 100644
--- a/rule_terminal_range.go
+++ b/rule_terminal_range.go
@@ -42,7 +42,7 @@ func (inst *TerminalRangeRule) Eval(grammar *Grammar, charstream ICharstream, fl
 		skippedWSpaces := charstream.SkipSpaces()
 		evalResult.CharsRead = append(evalResult.CharsRead, skippedWSpaces...)
 		for i, char := range skippedWSpaces {
-			if inst.begin <= char && char >= inst.end {
+			if inst.begin <= char && char <= inst.end {
 				// matched
 				evalResult.CharsUnused = skippedWSpaces[i+1:]
 				node.Chars = append(node.Chars, char)
-- 
2.43.0


From aa3043af779a2847fbcbfe7a28a9dfb60da5dc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:08 +0000
Subject: [PATCH 12/26] fix: node of a char range has the position of the char
 it matched

---
 rule_terminal_range.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rule_terminal_range.go b/rule_terminal_range.go
index c5a14a5..71d660b 100644
--- a/rule_terminal_range.go
+++ b/rule_terminal_range.go
@@ -35,7 +35,6 @@ func (inst *TerminalRangeRule) Eval(grammar *Grammar, charstream ICharstream, fl
 		Virtual:   inst.virtual,
 		NonData:   inst.nondata,
 		Sticky:    true,
-		Position:  charstream.PositionLookup(charstream.Cursor() - 1),
 	}
 
 	if flagLeadingSpaces == SUGGEST_SKIP {
@@ -45,6 +44,7 @@ func (inst *TerminalRangeRule) Eval(grammar *Grammar, charstream ICharstream, fl
 			if inst.begin <= char && char <= inst.end {
 				// matched
 				evalResult.CharsUnused = skippedWSpaces[i+1:]
+				node.Position = charstream.PositionLookup(charstream.Cursor() - len(skippedWSpaces) + i)
 				node.Chars = append(node.Chars, char)
 				evalResult.Node = node
 				return evalResult
@@ -57,6 +57,7 @@ func (inst *TerminalRangeRule) Eval(grammar *Grammar, charstream ICharstream, fl
 	char := charstream.Peek()
 	if inst.begin <= char && char <= inst.end {
 		// matched
+		node.Position = startPos
 		char = charstream.Next()
 		evalResult.CharsRead = append(evalResult.CharsRead, char)
 		node.Chars = append(node.Chars, char)
-- 
2.43.0


From 01283dfcd0c437b78d28c9615dbe14f4d37c8e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:09 +0000
Subject: [PATCH 13/26] fix: node of a group has the position of its child

---
 rule_group.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rule_group.go b/rule_group.go
index a6405f2..e4cdecc 100644
--- a/rule_group.go
+++ b/rule_group.go
@@ -32,8 +32,8 @@ func (inst *GroupRule) Eval(grammar *Grammar, charstream ICharstream, flagLeadin
 	}
 	node.Sticky = evalResult.Sticky
 	node.ChildNodes = append(node.ChildNodes, evalResult.Node)
-	evalResult.Node = node
 	node.Position = evalResult.Node.Position
+	evalResult.Node = node
 	return evalResult
 }
 
-- 
2.43.0


From 78af27b0a6da4fe3bdf3e2182030c9a454b39d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:10 +0000
Subject: [PATCH 14/26] fix: reading the position of a stream holds the lock
 its access needs

---
 charstream.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/charstream.go b/charstream.go
index c92c025..8f2ae18 100644
--- a/charstream.go
+++ b/charstream.go
@@ -287,8 +287,9 @@ type CharstreamString struct {
 }
 
 func (inst *CharstreamString) Position() *Position {
-	inst.lock.RLock()
-	defer inst.lock.RUnlock()
+	// the position map is updated below, a read lock is not enough
+	inst.lock.Lock()
+	defer inst.lock.Unlock()
 
 	if inst.cursor >= len(inst.chars) {
 		// cursor is at EOF
@@ -506,6 +507,9 @@ func (inst *CharstreamPrepend) Match(input []rune) ([]rune, bool) {
 }
 
 func (inst *CharstreamPrepend) Position() *Position {
+	inst.lock.RLock()
+	defer inst.lock.RUnlock()
+
 	if inst.cursor >= len(inst.prepend) {
 		return inst.charstream.Position()
 	}
-- 
2.43.0


From fcbb93736432443c88ce33ec7fd369d848c93654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:12 +0000
Subject: [PATCH 15/26] fix: position lookup of a char in the first line after
 its end is read

---
 charstream.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/charstream.go b/charstream.go
index 8f2ae18..e70e0f6 100644
--- a/charstream.go
+++ b/charstream.go
@@ -105,7 +105,7 @@ func (inst *positionMap) lookup(idx int) *Position {
 		maxLineIdx = maxLineIdx - 1
 	}
 
-	lineIdx := 0
+	lineIdx := -1 // idx is before the end of the first line, unless found below
 	var col int
 	// do reverse linear lookup (TODO: binary lookup should be faster)
 	for i := maxLineIdx; i >= 0; i-- {
@@ -122,7 +122,7 @@ func (inst *positionMap) lookup(idx int) *Position {
 	//	col = idx + 1
 	//} else {
 	//	// if it has a previous line, the col is
-	if idx == inst.lines[lineIdx] {
+	if lineIdx >= 0 && idx == inst.lines[lineIdx] {
 		if lineIdx > 0 {
 			col = idx - inst.lines[lineIdx-1]
 		} else {
@@ -130,7 +130,11 @@ func (inst *positionMap) lookup(idx int) *Position {
 		}
 	} else {
 		lineIdx = lineIdx + 1
-		col = idx - inst.lines[lineIdx-1]
+		if lineIdx > 0 {
+			col = idx - inst.lines[lineIdx-1]
+		} else {
+			col = idx + 1
+		}
 	}
 	//}
 
-- 
2.43.0


From 41f59c644bbbf2ae90b9fec0b0bcb265d9c71064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:13 +0000
Subject: [PATCH 16/26] fix: node of chars with leading white space has the
 position of its first char

---
 rule_terminal_chars.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rule_terminal_chars.go b/rule_terminal_chars.go
index b2ad7cb..0bcaba8 100644
--- a/rule_terminal_chars.go
+++ b/rule_terminal_chars.go
@@ -51,7 +51,7 @@ func (inst *TerminalCharsRule) Eval(grammar *Grammar, charstream ICharstream, fl
 			evalResult.ErrIdx = charstream.Cursor()
 			return evalResult
 		}
-		startCursor = startCursor + len(skippedWSpaces)
+		startCursor = startCursor + len(skippedWSpaces) - len(leadingWSpaces)
 		// now we need to check if the leadingWSpace matches the end of skippedWSpace
 		skippedWSpaces = skippedWSpaces[len(skippedWSpaces)-len(leadingWSpaces):]
 		for i, skippedWSpace := range skippedWSpaces {
-- 
2.43.0


From 9002ae90a5884dc484216da54135b04d2de09304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:14 +0000
Subject: [PATCH 17/26] fix: embedded evaluation of a rule that matches empty
 text terminates

---
 grammar.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grammar.go b/grammar.go
index cd286c7..9ad1255 100644
--- a/grammar.go
+++ b/grammar.go
@@ -261,7 +261,7 @@ func (inst *Grammar) EvalEmbed(ruleName string, sample string) *EvalResult {
 	for {
 		result = rule.Eval(inst, cs, NOT_SKIP)
 		cs = newCharstreamPrepend(cs, result.CharsUnused)
-		if result.Node == nil { // no match
+		if result.Node == nil || result.countCharsUsed() == 0 { // no match, or matches nothing
 			char := cs.Next()
 			if char == EOFChar {
 				if len(text) > 0 {
-- 
2.43.0


From e66e21190e124daf4ec6179986a8bb2d7b0b5f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:16 +0000
Subject: [PATCH 18/26] fix: validation forgets root and terminal rules that no
 longer are

---
 grammar.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/grammar.go b/grammar.go
index 9ad1255..ba3db16 100644
--- a/grammar.go
+++ b/grammar.go
@@ -224,6 +224,9 @@ func (inst *Grammar) Validate() error {
 			nonTerminals[child] = 0
 		}
 	}
+	// the rules may have changed since last validation
+	inst.terminals = make(map[string]*RuleRecord)
+	inst.rootRules = make(map[string]*RuleRecord)
 	for name, record := range inst.ruleRecords {
 		_, exists := nonTerminals[name]
 		if exists {
-- 
2.43.0


From 15b6909ca77188c4cea077d23d86d8cce5f2a5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:17 +0000
Subject: [PATCH 19/26] fix: a rejected rule leaves no usages behind in the
 grammar

---
 grammar.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/grammar.go b/grammar.go
index ba3db16..1be1469 100644
--- a/grammar.go
+++ b/grammar.go
@@ -113,6 +113,7 @@ func (inst *Grammar) ParseRule(name string, ruleStr string) (IRule, error) {
 	}
 	r, err := inst.parse(ruleName, cs, []rune{EOFChar})
 	if err != nil {
+		inst.removeUsages(ruleName) // a rejected rule does not use any rule
 		return nil, err
 	}
 	rule = r
@@ -211,6 +212,23 @@ func (inst *Grammar) AddUsage(ruleName string, userRule string) {
 	inst.nonRoots[ruleName] = append(inst.nonRoots[ruleName], userRule)
 }
 
+// removeUsages removes everything AddUsage recorded for the user rule
+func (inst *Grammar) removeUsages(userRule string) {
+	for ruleName, users := range inst.nonRoots {
+		var others []string
+		for _, user := range users {
+			if user != userRule {
+				others = append(others, user)
+			}
+		}
+		if len(others) > 0 {
+			inst.nonRoots[ruleName] = others
+		} else {
+			delete(inst.nonRoots, ruleName)
+		}
+	}
+}
+
 func (inst *Grammar) Validate() error {
 	//inst.lock.Lock()
 	//defer inst.lock.Unlock()
-- 
2.43.0


From 73d43af71c020710041f877a69bd63b4e851c727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:18 +0000
Subject: [PATCH 20/26] fix: unicode escapes in a string rule are kept as they
 are

---
 rule_terminal_string.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/rule_terminal_string.go b/rule_terminal_string.go
index 18de378..fbd0331 100644
--- a/rule_terminal_string.go
+++ b/rule_terminal_string.go
@@ -2,7 +2,6 @@ package xbnf
 
 import (
 	"fmt"
-	"strings"
 )
 
 type TerminalStringRule struct {
@@ -92,7 +91,7 @@ func (inst *TerminalStringRule) StringWithIndent(indent string) string {
 }
 
 func inString(name string, cs ICharstream) (*TerminalStringRule, error) {
-	var buf strings.Builder
+	var buf []rune
 	var definedUnicodes []rune
 	openChar := cs.Next()
 	if openChar != '"' {
@@ -119,9 +118,9 @@ func inString(name string, cs ICharstream) (*TerminalStringRule, error) {
 				char = cs.Next()
 			}
 		}
-		buf.WriteRune(char)
+		buf = append(buf, char)
 	}
 	rule := &TerminalStringRule{}
-	rule.text = []rune(buf.String())
+	rule.text = buf
 	return rule, nil
 }
-- 
2.43.0


From 9188a64500c93f081b361bb054ed3966ed37de72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:05 +0000
Subject: [PATCH 21/26] fix: a tokenized node is not merged with its sticky
 siblings

---
 node.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node.go b/node.go
index 6ecb557..2f6a52f 100644
--- a/node.go
+++ b/node.go
@@ -155,7 +155,7 @@ func MergeStickyNodes(nodes []*Node) []*Node {
 		if node.Sticky {
 			// the node is sticky node that can be merged to previous sticky node if there is one
 			nodeText := node.Text()
-			if prevNode != nil && prevNode.Sticky {
+			if prevNode != nil && prevNode.Sticky && !prevNode.Tokenized && !node.Tokenized {
 				// previous node is steaky, node and prevNode can be merge
 				prevNode.Chars = append(prevNode.Chars, nodeText...)
 				continue
-- 
2.43.0


From 6278d6e0ea0cc0d86731ae15d66806bffb7d6dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:16 +0000
Subject: [PATCH 22/26] fix: block opened by an empty match has the position of
 its content

---
 rule_block.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rule_block.go b/rule_block.go
index 2b7cd4a..d0fba44 100644
--- a/rule_block.go
+++ b/rule_block.go
@@ -98,6 +98,9 @@ func (inst *BlockRule) Eval(grammar *Grammar, charstream ICharstream, flagLeadin
 	cs = newCharstreamPrepend(cs, charsUnused)
 	charsUnused = nil // now back in cs
 	content.Position = cs.Position()
+	if node.Position == nil { // open matches no text, the block begins with its content
+		node.Position = content.Position
+	}
 	var closeResult *EvalResult
 	var escapeChars []rune
 	for {
-- 
2.43.0


From 5bb90dc67c8548bb23a64b54af2f53e1f6b846ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:15 +0000
Subject: [PATCH 23/26] fix: position lookup beyond the cursor of a stream with
 chars given back

---
 charstream.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/charstream.go b/charstream.go
index e70e0f6..a23f4be 100644
--- a/charstream.go
+++ b/charstream.go
@@ -523,6 +523,10 @@ func (inst *CharstreamPrepend) Position() *Position {
 
 // Return the position of char index
 func (inst *CharstreamPrepend) PositionLookup(idx int) *Position {
+	if idx != 0 && idx >= inst.Cursor() {
+		// read by the underlying stream, but given back since
+		return nil
+	}
 	return inst.charstream.PositionLookup(idx)
 }
 
-- 
2.43.0


From b948be0dc0b34c2a5daccce7aba19bf444bf2a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:28 +0000
Subject: [PATCH 24/26] fix: a block accounts for all chars given back and not
 read again

---
 rule_block.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/rule_block.go b/rule_block.go
index d0fba44..7865314 100644
--- a/rule_block.go
+++ b/rule_block.go
@@ -147,6 +147,7 @@ func (inst *BlockRule) Eval(grammar *Grammar, charstream ICharstream, flagLeadin
 				evalResult.Error = resultExclude.Error
 				evalResult.ErrIdx = charstream.Cursor()
 				evalResult.CharsRead = append(charsUsed, resultExclude.CharsRead...)
+				evalResult.CharsRead = append(evalResult.CharsRead, charsGivenBack(cs, charstream)...)
 				evalResult.CharsUnused = evalResult.CharsRead
 				return evalResult
 			}
@@ -160,6 +161,7 @@ func (inst *BlockRule) Eval(grammar *Grammar, charstream ICharstream, flagLeadin
 				evalResult.Error = fmt.Errorf("text `%s` is not allowed in text block", string(resultExclude.charsUsed()))
 				evalResult.ErrIdx = charstream.Cursor()
 				evalResult.CharsRead = append(charsUsed, resultExclude.CharsRead...)
+				evalResult.CharsRead = append(evalResult.CharsRead, charsGivenBack(cs, charstream)...)
 				evalResult.CharsUnused = evalResult.CharsRead
 				return evalResult
 			}
@@ -198,21 +200,34 @@ func (inst *BlockRule) Eval(grammar *Grammar, charstream ICharstream, flagLeadin
 		content.Chars = append(content.Chars, escapeChars...)
 		content.Chars = append(content.Chars, char)
 	}
+	charsLeft := charsGivenBack(cs, charstream)
 	evalResult.CharsRead = append(charsUsed, charsUnused...)
+	evalResult.CharsRead = append(evalResult.CharsRead, charsLeft...)
 	if evalResult.Error != nil {
 		evalResult.CharsUnused = evalResult.CharsRead
 	} else {
 		if inst.virtualClose {
-			evalResult.CharsUnused = closeResult.CharsRead
+			evalResult.CharsUnused = append(evalResult.CharsUnused, closeResult.CharsRead...)
 		} else {
-			evalResult.CharsUnused = charsUnused
+			evalResult.CharsUnused = append(evalResult.CharsUnused, charsUnused...)
 		}
+		evalResult.CharsUnused = append(evalResult.CharsUnused, charsLeft...)
 		evalResult.Node = node
 	}
 
 	return evalResult
 }
 
+// charsGivenBack reads the chars that were given back to charstream, resulting in cs, and
+// have not been read again from cs.
+func charsGivenBack(cs ICharstream, charstream ICharstream) []rune {
+	var chars []rune
+	for cs.Cursor() < charstream.Cursor() {
+		chars = append(chars, cs.Next())
+	}
+	return chars
+}
+
 // This function expects '<' as the 1st char in the input charstream.
 func inBlock(grammar *Grammar, name string, charstream ICharstream) (*BlockRule, error) {
 	block := &BlockRule{}
-- 
2.43.0


From fac00bb62094f3eec392d58ab8f19ccd9f1518ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:29 +0000
Subject: [PATCH 25/26] fix: an empty string match at the begining of the text
 has no position

---
 rule_terminal_string.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rule_terminal_string.go b/rule_terminal_string.go
index fbd0331..d91c9ff 100644
--- a/rule_terminal_string.go
+++ b/rule_terminal_string.go
@@ -73,7 +73,9 @@ func (inst *TerminalStringRule) Eval(grammar *Grammar, charstream ICharstream, f
 		evalResult.ErrIdx = charstream.Cursor()
 		return evalResult
 	}
-	node.Position = charstream.PositionLookup(charstream.Cursor() - len(inst.text))
+	if len(inst.text) > 0 { // an empty string has no first char
+		node.Position = charstream.PositionLookup(charstream.Cursor() - len(inst.text))
+	}
 	node.Chars = append(node.Chars, inst.text...)
 	evalResult.Node = node
 	return evalResult
-- 
2.43.0


From bc41c248fa6b08117cee2c6f308316f2c7daa248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:56 +0000
Subject: [PATCH 26/26] fix: the end of a char range may be an escaped char
 like its begin

---
 rule_terminal_range.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rule_terminal_range.go b/rule_terminal_range.go
index 71d660b..a4ca082 100644
--- a/rule_terminal_range.go
+++ b/rule_terminal_range.go
@@ -121,8 +121,8 @@ func inRange(cs ICharstream, beginChar rune, beginAsUnicode bool) (IRule, error)
 				}
 				endChar = unicode
 				endAsUnicode = true
-			} else {
-				return nil, fmt.Errorf("char range: end char missing unicode escape \\u")
+			} else { // a bare \ just escape the next char, same as in the begin char
+				endChar = cs.Next()
 			}
 		}
 		char = cs.Next() // expecting a closing "'"
-- 
2.43.0

