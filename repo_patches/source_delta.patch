From 028235403eb103d650bde78ba2f69f5f1fcb801c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:43 +0000
Subject: [PATCH 01/22] fix: bidirectional: do not process beyond a truncating
 paragraph buffer

---
 src/bidirectional.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bidirectional.c b/src/bidirectional.c
index 4e81df1..49bb809 100644
--- a/src/bidirectional.c
+++ b/src/bidirectional.c
@@ -1437,7 +1437,7 @@ preprocess(HERODOTUS_READER *r, enum grapheme_bidirectional_direction override,
 			          &(buf[bufoff]));
 		}
 	}
-	bufsize = herodotus_reader_number_read(r);
+	bufsize = MIN(herodotus_reader_number_read(r), buflen);
 
 	for (bufoff = 0; bufoff < bufsize; bufoff++) {
 		if (get_state(STATE_PROP, buf[bufoff]) != BIDI_PROP_B &&
-- 
2.43.0


From d094c33d2ffede859f7e0c03741e2ca8d55140ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:51 +0000
Subject: [PATCH 02/22] fix: bidirectional: never touch levels beyond the given
 array

---
 src/bidirectional.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bidirectional.c b/src/bidirectional.c
index 49bb809..7b6bede 100644
--- a/src/bidirectional.c
+++ b/src/bidirectional.c
@@ -1496,7 +1496,7 @@ get_line_embedding_levels(const uint_least32_t *linedata, size_t linelen,
 
 		/* write level into level array if we still have space */
 		if (level != -1 || skipignored == false) {
-			if (levlen <= levsize) {
+			if (levlen < levsize) {
 				set_level(lev, levlen, level);
 			}
 			levlen++;
@@ -1527,7 +1527,7 @@ get_line_embedding_levels(const uint_least32_t *linedata, size_t linelen,
 		 * we hit the end of the line but were in a run;
 		 * reset the line levels to the paragraph level
 		 */
-		for (i = runsince; i < MIN(linelen, levlen); i++) {
+		for (i = runsince; i < MIN(levsize, levlen); i++) {
 			if (get_level(lev, i) != -1) {
 				set_level(lev, i, runlevel);
 			}
-- 
2.43.0


From 62868bef18ada513d60ea5fdbb4c87c216d8d1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:02 +0000
Subject: [PATCH 03/22] fix: bidirectional: accept an exactly fitting
 reordering buffer

---
 src/bidirectional.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bidirectional.c b/src/bidirectional.c
index 7b6bede..e1f6748 100644
--- a/src/bidirectional.c
+++ b/src/bidirectional.c
@@ -1609,7 +1609,7 @@ grapheme_bidirectional_reorder_line(const uint_least32_t *line,
 			outputlen++;
 		}
 	}
-	if (outputlen >= outputsize) {
+	if (outputlen > outputsize) {
 		/* clear output buffer */
 		for (i = 0; i < outputsize; i++) {
 			output[i] = GRAPHEME_INVALID_CODEPOINT;
-- 
2.43.0


From 2f6ef5ade996dd0c3dbfb1f59655aaef086ad055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:35 +0000
Subject: [PATCH 04/22] fix: bidirectional: only consider the first paragraph
 for its level

---
 src/bidirectional.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/bidirectional.c b/src/bidirectional.c
index e1f6748..5476c93 100644
--- a/src/bidirectional.c
+++ b/src/bidirectional.c
@@ -974,6 +974,12 @@ get_paragraph_level(enum grapheme_bidirectional_direction override,
 	                        HERODOTUS_STATUS_SUCCESS;) {
 		prop = get_bidi_property(cp);
 
+		/* P1 */
+		if (prop == BIDI_PROP_B) {
+			/* the paragraph ends here */
+			break;
+		}
+
 		/* BD8/BD9 */
 		if ((prop == BIDI_PROP_LRI || prop == BIDI_PROP_RLI ||
 		     prop == BIDI_PROP_FSI) &&
-- 
2.43.0


From 577e94bac21515041b0e4be6985a90544be53217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:45 +0000
Subject: [PATCH 05/22] fix: bidirectional: match isolates at any depth when
 determining paragraph levels

---
 src/bidirectional.c | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/bidirectional.c b/src/bidirectional.c
index 5476c93..6071248 100644
--- a/src/bidirectional.c
+++ b/src/bidirectional.c
@@ -898,8 +898,7 @@ static uint_least8_t
 get_isolated_paragraph_level(const uint_least32_t *state, size_t statelen)
 {
 	enum bidi_property prop;
-	int_least8_t isolate_level;
-	size_t stateoff;
+	size_t stateoff, isolate_level;
 
 	/* determine paragraph level (rules P1-P3) and terminate on PDI */
 	for (stateoff = 0, isolate_level = 0; stateoff < statelen; stateoff++) {
@@ -914,9 +913,8 @@ get_isolated_paragraph_level(const uint_least32_t *state, size_t statelen)
 		}
 
 		/* BD8/BD9 */
-		if ((prop == BIDI_PROP_LRI || prop == BIDI_PROP_RLI ||
-		     prop == BIDI_PROP_FSI) &&
-		    isolate_level < MAX_DEPTH) {
+		if (prop == BIDI_PROP_LRI || prop == BIDI_PROP_RLI ||
+		    prop == BIDI_PROP_FSI) {
 			/* we hit an isolate initiator, increment counter */
 			isolate_level++;
 		} else if (prop == BIDI_PROP_PDI && isolate_level > 0) {
@@ -956,7 +954,7 @@ get_paragraph_level(enum grapheme_bidirectional_direction override,
 {
 	HERODOTUS_READER tmp;
 	enum bidi_property prop;
-	int_least8_t isolate_level;
+	size_t isolate_level;
 	uint_least32_t cp;
 
 	/* check overrides first according to rule HL1 */
@@ -981,9 +979,8 @@ get_paragraph_level(enum grapheme_bidirectional_direction override,
 		}
 
 		/* BD8/BD9 */
-		if ((prop == BIDI_PROP_LRI || prop == BIDI_PROP_RLI ||
-		     prop == BIDI_PROP_FSI) &&
-		    isolate_level < MAX_DEPTH) {
+		if (prop == BIDI_PROP_LRI || prop == BIDI_PROP_RLI ||
+		    prop == BIDI_PROP_FSI) {
 			/* we hit an isolate initiator, increment counter */
 			isolate_level++;
 		} else if (prop == BIDI_PROP_PDI && isolate_level > 0) {
-- 
2.43.0


From 2ae307520c2a369c8ded45629941841fe6b49500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:54 +0000
Subject: [PATCH 06/22] fix: bidirectional: follow isolating run sequences
 across overrides and overflows

---
 src/bidirectional.c | 112 +++++++++++++++++---------------------------
 1 file changed, 43 insertions(+), 69 deletions(-)

diff --git a/src/bidirectional.c b/src/bidirectional.c
index 6071248..decaf2a 100644
--- a/src/bidirectional.c
+++ b/src/bidirectional.c
@@ -221,12 +221,19 @@ ir_init(uint_least32_t *buf, size_t buflen, size_t off,
 	}
 }
 
+static inline bool
+is_isolate_initiator(enum bidi_property prop)
+{
+	return prop == BIDI_PROP_LRI || prop == BIDI_PROP_RLI ||
+	       prop == BIDI_PROP_FSI;
+}
+
 static int
 ir_advance(struct isolate_runner *ir)
 {
 	enum bidi_property prop;
-	int_least8_t level, isolate_level, last_isolate_level;
-	size_t i;
+	int_least8_t eos_level;
+	size_t i, isolate_level;
 
 	if (ir->next.off == SIZE_MAX) {
 		/* the sequence is over */
@@ -244,82 +251,49 @@ ir_advance(struct isolate_runner *ir)
 	 */
 	ir->next.off = SIZE_MAX;
 
-	last_isolate_level = -1;
-	for (i = ir->cur.off, isolate_level = 0; i < ir->buflen; i++) {
-		level = (int_least8_t)get_state(STATE_LEVEL, ir->buf[i]);
-		prop = (uint_least8_t)get_state(STATE_PROP, ir->buf[i]);
-
-		if (level == -1) {
-			/* this is one of the ignored characters, skip */
-			continue;
-		} else if (level == ir->isolating_run_level) {
-			last_isolate_level = level;
-		}
-
-		/* follow BD8/BD9 and P2 to traverse the current sequence */
-		if (prop == BIDI_PROP_LRI || prop == BIDI_PROP_RLI ||
-		    prop == BIDI_PROP_FSI) {
-			/*
-			 * we encountered an isolate initiator, increment
-			 * counter, but go into processing when we
-			 * were not isolated before
-			 */
-			if (isolate_level < MAX_DEPTH) {
-				isolate_level++;
-			}
-			if (isolate_level != 1) {
-				continue;
-			}
-		} else if (prop == BIDI_PROP_PDI && isolate_level > 0) {
-			isolate_level--;
-
-			/*
-			 * if the current PDI dropped the isolate-level
-			 * to zero, it is itself part of the isolating
-			 * run sequence; otherwise we simply continue.
-			 */
-			if (isolate_level > 0) {
-				continue;
-			}
-		} else if (isolate_level > 0) {
-			/* we are in an isolating sequence */
-			continue;
+	/* find the next character that has not been removed in X9 */
+	eos_level = (int_least8_t)ir->paragraph_level;
+	for (i = ir->cur.off + 1; i < ir->buflen; i++) {
+		if (get_state(STATE_LEVEL, ir->buf[i]) != -1) {
+			eos_level = (int_least8_t)get_state(STATE_LEVEL,
+			                                    ir->buf[i]);
+			break;
 		}
+	}
 
+	if (i < ir->buflen && eos_level == ir->isolating_run_level) {
+		/* the level run continues */
+		ir->next.off = i;
+	} else if (is_isolate_initiator(ir_get_current_preserved_prop(ir))) {
 		/*
-		 * now we either still are in our sequence or we hit
-		 * the eos-case as we left the sequence and hit the
-		 * first non-isolating-sequence character.
+		 * the level run ends with an isolate initiator, thus the
+		 * sequence continues with its matching PDI, if there is
+		 * any. Follow BD8/BD9, which are only about the original
+		 * properties (i.e. before the application of overrides).
 		 */
-		if (i == ir->cur.off) {
-			/* we were in the first initializing round */
-			continue;
-		} else if (level == ir->isolating_run_level) {
-			/* isolate_level-skips have been handled before, we're
-			 * good */
-			/* still in the sequence */
-			ir->next.off = i;
-		} else {
-			/* out of sequence or isolated, compare levels via eos
-			 */
-			ir->next.off = SIZE_MAX;
-			if (MAX(last_isolate_level, level) % 2 == 0) {
-				ir->eos = BIDI_PROP_L;
-			} else {
-				ir->eos = BIDI_PROP_R;
+		for (isolate_level = 1; i < ir->buflen; i++) {
+			prop = (uint_least8_t)get_state(STATE_PRESERVED_PROP,
+			                                ir->buf[i]);
+
+			if (is_isolate_initiator(prop)) {
+				isolate_level++;
+			} else if (prop == BIDI_PROP_PDI &&
+			           --isolate_level == 0) {
+				ir->next.off = i;
+				break;
 			}
 		}
-		break;
+
+		/* without a matching PDI the paragraph level is decisive */
+		eos_level = (int_least8_t)ir->paragraph_level;
 	}
-	if (i == ir->buflen) {
+
+	if (ir->next.off == SIZE_MAX) {
 		/*
-		 * the sequence ended before we could grab an offset.
-		 * we need to determine the eos-prop by comparing the
-		 * level of the last element in the isolating run sequence
-		 * with the paragraph level.
+		 * the sequence ends here, compare the level of its last
+		 * element with that of what follows
 		 */
-		ir->next.off = SIZE_MAX;
-		if (MAX(last_isolate_level, ir->paragraph_level) % 2 == 0) {
+		if (MAX(ir->isolating_run_level, eos_level) % 2 == 0) {
 			/* the higher level is even, set eos to L */
 			ir->eos = BIDI_PROP_L;
 		} else {
-- 
2.43.0


From 8d6bd743413b33326a656cda9d6695f8b81b7179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:32 +0000
Subject: [PATCH 07/22] fix: bidirectional: detect bracket pairs as specified
 in BD16

---
 src/bidirectional.c | 226 +++++++++++++-------------------------------
 1 file changed, 66 insertions(+), 160 deletions(-)

diff --git a/src/bidirectional.c b/src/bidirectional.c
index decaf2a..b4b7f21 100644
--- a/src/bidirectional.c
+++ b/src/bidirectional.c
@@ -15,6 +15,7 @@ enum state_type {
 	STATE_LEVEL,           /* in 0..MAX_DEPTH+1=126, embedding level */
 	STATE_PARAGRAPH_LEVEL, /* in 0..1, paragraph embedding level */
 	STATE_VISITED,         /* in 0..1, visited within isolating run */
+	STATE_PAIRED,          /* in 0..1, member of a bracket pair */
 };
 
 static struct {
@@ -52,6 +53,11 @@ static struct {
 		.mask_shift   = 26,
 		.value_offset = 0,
 	},
+	[STATE_PAIRED] = {
+		.filter_mask  = 0x8000000, /* 00001000 00000000 00000000 00000000 */
+		.mask_shift   = 27,
+		.value_offset = 0,
+	},
 };
 
 static inline int_least16_t
@@ -460,197 +466,96 @@ preprocess_bracket_pairs(uint_least32_t *buf, size_t buflen, size_t off,
 	 * by 63, the algorithm, as is, requires dynamic memory
 	 * management.
 	 *
-	 * A naive approach (used by Fribidi) would be to screw the
-	 * stack-approach and simply directly determine the
-	 * corresponding closing bracket offset for a given opening
-	 * bracket, leading to O(n²) time complexity in the worst case
-	 * with a lot of brackets. While many brackets are not common,
-	 * it is still possible to find a middle ground where you obtain
-	 * strongly linear time complexity in most common cases:
-	 *
-	 * Instead of a stack, we use a FIFO data structure which is
-	 * filled with bracket openings in the order of appearance (thus
-	 * yielding an implicit sorting!) at the top. If the
-	 * corresponding closing bracket is encountered, it is added to
-	 * the respective entry, making it ready to "move out" at the
-	 * bottom (i.e. passed to the bracket processing). Due to the
-	 * nature of the specified pair detection algorithm, which only
-	 * cares about the bracket type and nothing else (bidi class,
-	 * level, etc.), we can mix processing and bracket detection.
-	 *
-	 * Obviously, if you, for instance, have one big bracket pair at
-	 * the bottom that has not been closed yet, it will block the
-	 * bracket processing and the FIFO might hit its capacity limit.
-	 * At this point, the blockage is manually resolved using the
-	 * naive quadratic approach.
-	 *
-	 * To remain within the specified standard behaviour, which
-	 * mandates that processing of brackets should stop when the
-	 * bracketing-depth is at 63, we simply check in an "overflow"
-	 * scenario if all 63 elements in the LIFO are unfinished, which
-	 * corresponds with such a bracketing depth.
+	 * To avoid this, we do it in two passes: The first pass follows
+	 * BD16 to the letter, but instead of adding a pair to a list it
+	 * marks both brackets as paired. Given pairs never cross each
+	 * other, the marks are sufficient to find the partner of any
+	 * paired opening bracket, simply by counting the marked opening
+	 * and closing brackets in between. This is what the second pass,
+	 * which resolves the pairs in the order of their openings, does.
+	 * As the resolution of a pair needs to inspect everything between
+	 * the brackets anyway, this comes at no additional cost.
 	 */
 	enum bidi_property prop;
 
 	struct {
-		bool complete;
 		size_t bracket_class;
-		struct isolate_runner start;
-		struct isolate_runner end;
-	} fifo[63];
-	const struct bracket *bracket_prop, *tmp_bracket_prop;
-	struct isolate_runner ir, tmp_ir;
-	size_t fifo_len = 0, i, blevel, j, k;
+		size_t off;
+	} stack[63];
+	const struct bracket *bracket_prop;
+	struct isolate_runner ir, end;
+	size_t stack_len = 0, i, blevel;
 
+	/* BD16 */
 	ir_init(buf, buflen, off, paragraph_level, false, &ir);
 	while (!ir_advance(&ir)) {
 		prop = ir_get_current_prop(&ir);
 		bracket_prop = ir_get_current_bracket_prop(&ir);
 		if (prop == BIDI_PROP_ON &&
 		    bracket_prop->type == BIDI_BRACKET_OPEN) {
-			if (fifo_len == LEN(fifo)) {
+			if (stack_len == LEN(stack)) {
 				/*
-				 * The FIFO is full, check first if it's
-				 * completely blocked (i.e. no finished
-				 * bracket pairs, triggering the standard
-				 * that mandates to abort in such a case
+				 * the stack is full, stop the pair
+				 * detection for the remainder of the
+				 * isolating run sequence
 				 */
-				for (i = 0; i < fifo_len; i++) {
-					if (fifo[i].complete) {
-						break;
-					}
-				}
-				if (i == fifo_len) {
-					/* abort processing */
-					return;
-				}
-
-				/*
-				 * by construction, the bottom entry
-				 * in the FIFO is guaranteed to be
-				 * unfinished (given we "consume" all
-				 * finished bottom entries after each
-				 * iteration).
-				 *
-				 * iterate, starting after the opening
-				 * bracket, and find the corresponding
-				 * closing bracket.
-				 *
-				 * if we find none, just drop the FIFO
-				 * entry silently
-				 */
-				for (tmp_ir = fifo[0].start, blevel = 0;
-				     !ir_advance(&tmp_ir);) {
-					tmp_bracket_prop =
-						ir_get_current_bracket_prop(
-							&tmp_ir);
-
-					if (tmp_bracket_prop->type ==
-					            BIDI_BRACKET_OPEN &&
-					    tmp_bracket_prop->class ==
-					            bracket_prop->class) {
-						/* we encountered another
-						 * opening bracket of the
-						 * same class */
-						blevel++;
-
-					} else if (tmp_bracket_prop->type ==
-					                   BIDI_BRACKET_CLOSE &&
-					           tmp_bracket_prop->class ==
-					                   bracket_prop
-					                           ->class) {
-						/* we encountered a closing
-						 * bracket of the same class
-						 */
-						if (blevel == 0) {
-							/* this is the
-							 * corresponding
-							 * closing bracket
-							 */
-							fifo[0].complete = true;
-							fifo[0].end = ir;
-						} else {
-							blevel--;
-						}
-					}
-				}
-				if (fifo[0].complete) {
-					/* we found the matching bracket */
-					preprocess_bracket_pair(
-						&(fifo[i].start),
-						&(fifo[i].end));
-				}
-
-				/* shift FIFO one to the left */
-				for (i = 1; i < fifo_len; i++) {
-					fifo[i - 1] = fifo[i];
-				}
-				fifo_len--;
+				break;
 			}
 
-			/* add element to the FIFO */
-			fifo_len++;
-			fifo[fifo_len - 1].complete = false;
-			fifo[fifo_len - 1].bracket_class = bracket_prop->class;
-			fifo[fifo_len - 1].start = ir;
+			/* push the opening bracket on the stack */
+			stack[stack_len].bracket_class = bracket_prop->class;
+			stack[stack_len].off = ir.cur.off;
+			stack_len++;
 		} else if (prop == BIDI_PROP_ON &&
 		           bracket_prop->type == BIDI_BRACKET_CLOSE) {
 			/*
-			 * go backwards in the FIFO, skip finished entries
-			 * and simply ignore (do nothing) the closing
-			 * bracket if we do not match anything
+			 * go down the stack and simply ignore (do nothing)
+			 * the closing bracket if we do not match anything
 			 */
-			for (i = fifo_len; i > 0; i--) {
+			for (i = stack_len; i > 0; i--) {
 				if (bracket_prop->class ==
-				            fifo[i - 1].bracket_class &&
-				    !fifo[i - 1].complete) {
+				    stack[i - 1].bracket_class) {
 					/* we have found a pair */
-					fifo[i - 1].complete = true;
-					fifo[i - 1].end = ir;
-
-					/* remove all uncompleted FIFO elements
-					 * above i - 1 */
-					for (j = i; j < fifo_len;) {
-						if (fifo[j].complete) {
-							j++;
-							continue;
-						}
+					set_state(STATE_PAIRED, 1,
+					          &(buf[stack[i - 1].off]));
+					set_state(STATE_PAIRED, 1,
+					          &(buf[ir.cur.off]));
 
-						/* shift FIFO one to the left */
-						for (k = j + 1; k < fifo_len;
-						     k++) {
-							fifo[k - 1] = fifo[k];
-						}
-						fifo_len--;
-					}
+					/*
+					 * pop everything through the
+					 * matching opening bracket
+					 */
+					stack_len = i - 1;
 					break;
 				}
 			}
 		}
+	}
 
-		/* process all ready bracket pairs from the FIFO bottom */
-		while (fifo_len > 0 && fifo[0].complete) {
-			preprocess_bracket_pair(&(fifo[0].start),
-			                        &(fifo[0].end));
+	/* N0 */
+	ir_init(buf, buflen, off, paragraph_level, false, &ir);
+	while (!ir_advance(&ir)) {
+		if (get_state(STATE_PAIRED, buf[ir.cur.off]) == 0 ||
+		    ir_get_current_bracket_prop(&ir)->type !=
+		            BIDI_BRACKET_OPEN) {
+			continue;
+		}
 
-			/* shift FIFO one to the left */
-			for (j = 0; j + 1 < fifo_len; j++) {
-				fifo[j] = fifo[j + 1];
+		/* find the matching closing bracket and resolve the pair */
+		for (end = ir, blevel = 0; !ir_advance(&end);) {
+			if (get_state(STATE_PAIRED, buf[end.cur.off]) == 0) {
+				continue;
 			}
-			fifo_len--;
-		}
-	}
 
-	/*
-	 * afterwards, we still might have unfinished bracket pairs
-	 * that will remain as such, but the subsequent finished pairs
-	 * also need to be taken into account, so we go through the
-	 * FIFO once more and process all finished pairs
-	 */
-	for (i = 0; i < fifo_len; i++) {
-		if (fifo[i].complete) {
-			preprocess_bracket_pair(&(fifo[i].start),
-			                        &(fifo[i].end));
+			if (ir_get_current_bracket_prop(&end)->type ==
+			    BIDI_BRACKET_OPEN) {
+				blevel++;
+			} else if (blevel > 0) {
+				blevel--;
+			} else {
+				preprocess_bracket_pair(&ir, &end);
+				break;
+			}
 		}
 	}
 }
@@ -1409,6 +1314,7 @@ preprocess(HERODOTUS_READER *r, enum grapheme_bidirectional_direction override,
 			set_state(STATE_LEVEL, 0, &(buf[bufoff]));
 			set_state(STATE_PARAGRAPH_LEVEL, 0, &(buf[bufoff]));
 			set_state(STATE_VISITED, 0, &(buf[bufoff]));
+			set_state(STATE_PAIRED, 0, &(buf[bufoff]));
 			set_state(STATE_PRESERVED_PROP,
 			          (uint_least8_t)get_bidi_property(cp),
 			          &(buf[bufoff]));
-- 
2.43.0


From 1fbfb4a540100b390fb60bb43ca5579728361143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:10 +0000
Subject: [PATCH 08/22] fix: bidirectional: only identify canonically
 equivalent brackets

---
 gen/bidirectional.c | 28 +++++++++-------------------
 src/bidirectional.c |  2 +-
 2 files changed, 10 insertions(+), 20 deletions(-)

diff --git a/gen/bidirectional.c b/gen/bidirectional.c
index b4a4fb7..6668943 100644
--- a/gen/bidirectional.c
+++ b/gen/bidirectional.c
@@ -143,7 +143,6 @@ static int
 decomposition_callback(const char *file, char **field, size_t nfields,
                        char *comment, void *payload)
 {
-	char *p;
 	struct decomposition_payload *decomp =
 		(struct decomposition_payload *)payload;
 	uint_least32_t cp;
@@ -160,25 +159,16 @@ decomposition_callback(const char *file, char **field, size_t nfields,
 
 	if (decomp->cp == cp) {
 		/* we hit the line that contains our decomposition target */
-		if (strlen(field[5]) > 0) {
-			p = field[5];
-			if (*p == '<') {
-				/*
-				 * the decomposition contains some metadata
-				 * <...> we skip
-				 */
-				for (; *p != '\0'; p++) {
-					if (*p == '>') {
-						p++;
-						while (*p == ' ') {
-							p++;
-						}
-						break;
-					}
-				}
-			}
-			hextocp(p, strlen(p), &(decomp->decomposition));
+		if (strlen(field[5]) > 0 && field[5][0] != '<') {
+			hextocp(field[5], strlen(field[5]),
+			        &(decomp->decomposition));
 		} else {
+			/*
+			 * there is either no decomposition or it is
+			 * marked with metadata <...>, making it a mere
+			 * compatibility decomposition, which does not
+			 * yield a canonical equivalent
+			 */
 			decomp->decomposition = decomp->cp;
 		}
 	}
diff --git a/src/bidirectional.c b/src/bidirectional.c
index b4b7f21..939e45d 100644
--- a/src/bidirectional.c
+++ b/src/bidirectional.c
@@ -133,7 +133,7 @@ static inline const struct bracket *
 ir_get_current_bracket_prop(const struct isolate_runner *ir)
 {
 	return bidi_bracket +
-	       (int_least8_t)get_state(STATE_BRACKET_OFF, ir->buf[ir->cur.off]);
+	       (uint_least8_t)get_state(STATE_BRACKET_OFF, ir->buf[ir->cur.off]);
 }
 
 static void
-- 
2.43.0


From c922600337e9956fc657ce17e51f2869b8dce5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:09 +0000
Subject: [PATCH 09/22] fix: character: pair regional indicators in stateless
 break check

---
 src/character.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/character.c b/src/character.c
index aedcf9e..c38aaa2 100644
--- a/src/character.c
+++ b/src/character.c
@@ -199,13 +199,15 @@ grapheme_is_character_break(uint_least32_t cp0, uint_least32_t cp1,
 		 * Apply grapheme cluster breaking algorithm (UAX #29), see
 		 * http://unicode.org/reports/tr29/#Grapheme_Cluster_Boundary_Rules
 		 *
-		 * Given we have no state, this behaves as if the state-booleans
-		 * were all set to false
+		 * Given we have no state, this behaves as if nothing
+		 * preceded cp0, i.e. cp0 neither ends an emoji-sequence nor
+		 * completes a pair of regional indicators
 		 */
 		notbreak = (dont_break[cp0_prop] & (UINT16_C(1) << cp1_prop)) ||
 		           (dont_break_gb11[cp0_prop] &
 		            (UINT16_C(1) << cp1_prop)) ||
-		           (dont_break_gb12_13[cp0_prop] &
+		           (dont_break_gb12_13[cp0_prop +
+		                               NUM_CHAR_BREAK_PROPS] &
 		            (UINT16_C(1) << cp1_prop));
 	}
 
-- 
2.43.0


From 2afd8d781572c48e008003868fae0aa2abfa2cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:18 +0000
Subject: [PATCH 10/22] fix: sentence: let a terminator begin a new sequence at
 any point

---
 src/sentence.c | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/sentence.c b/src/sentence.c
index 291c7f4..cfac55d 100644
--- a/src/sentence.c
+++ b/src/sentence.c
@@ -67,10 +67,8 @@ sentence_skip_shift_callback(uint_least8_t prop, void *s)
 	 *     left of the middle spot.
 	 *
 	 */
-	if ((state->aterm_close_sp_level == 0 ||
-	     state->aterm_close_sp_level == 1) &&
-	    prop == SENTENCE_BREAK_PROP_ATERM) {
-		/* sequence has begun */
+	if (prop == SENTENCE_BREAK_PROP_ATERM) {
+		/* sequence has (possibly anew) begun */
 		state->aterm_close_sp_level = 1;
 	} else if ((state->aterm_close_sp_level == 1 ||
 	            state->aterm_close_sp_level == 2) &&
@@ -88,11 +86,9 @@ sentence_skip_shift_callback(uint_least8_t prop, void *s)
 		state->aterm_close_sp_level = 0;
 	}
 
-	if ((state->saterm_close_sp_parasep_level == 0 ||
-	     state->saterm_close_sp_parasep_level == 1) &&
-	    (prop == SENTENCE_BREAK_PROP_STERM ||
-	     prop == SENTENCE_BREAK_PROP_ATERM)) {
-		/* sequence has begun */
+	if (prop == SENTENCE_BREAK_PROP_STERM ||
+	    prop == SENTENCE_BREAK_PROP_ATERM) {
+		/* sequence has (possibly anew) begun */
 		state->saterm_close_sp_parasep_level = 1;
 	} else if ((state->saterm_close_sp_parasep_level == 1 ||
 	            state->saterm_close_sp_parasep_level == 2) &&
-- 
2.43.0


From cc68c0db95a5d8554d8a9930112c9d4a11f75b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:20 +0000
Subject: [PATCH 11/22] fix: line: let a number directly follow a closed number
 (LB25)

---
 src/line.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/line.c b/src/line.c
index 5355143..f2354d5 100644
--- a/src/line.c
+++ b/src/line.c
@@ -113,9 +113,10 @@ next_line_break(HERODOTUS_READER *r)
 			 *     and one (CL | CP) to the left of the middle
 			 *     spot
 			 */
-			if ((lb25_level == 0 || lb25_level == 1) &&
+			if ((lb25_level == 0 || lb25_level == 1 ||
+			     lb25_level == 3) &&
 			    cp0_prop == LINE_BREAK_PROP_NU) {
-				/* sequence has begun */
+				/* sequence has (possibly anew) begun */
 				lb25_level = 1;
 			} else if ((lb25_level == 1 || lb25_level == 2) &&
 			           (cp0_prop == LINE_BREAK_PROP_NU ||
-- 
2.43.0


From 03a7b56ea9e5a3f8137da7c64b14df3d7f5ce528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:30 +0000
Subject: [PATCH 12/22] fix: line: treat combining marks after spaces as AL
 (LB10)

---
 src/line.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/line.c b/src/line.c
index f2354d5..7086ea2 100644
--- a/src/line.c
+++ b/src/line.c
@@ -139,6 +139,12 @@ next_line_break(HERODOTUS_READER *r)
 			}
 
 			last_non_cm_or_zwj_prop = cp0_prop;
+		} else if (last_non_cm_or_zwj_prop == LINE_BREAK_PROP_SP) {
+			/*
+			 * a CM or ZWJ cannot attach to a space and is
+			 * treated as AL according to LB10
+			 */
+			last_non_cm_or_zwj_prop = LINE_BREAK_PROP_AL;
 		}
 
 		/*
-- 
2.43.0


From 0b585b975307df06e38c1b20ea1eb595a5ead0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:41 +0000
Subject: [PATCH 13/22] fix: line: ignore combining marks when looking ahead
 for a number (LB25)

---
 src/line.c | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/line.c b/src/line.c
index 7086ea2..e47dae1 100644
--- a/src/line.c
+++ b/src/line.c
@@ -22,8 +22,9 @@ static size_t
 next_line_break(HERODOTUS_READER *r)
 {
 	HERODOTUS_READER tmp;
-	enum line_break_property cp0_prop, cp1_prop, last_non_cm_or_zwj_prop,
-		last_non_sp_prop, last_non_sp_cm_or_zwj_prop;
+	enum line_break_property cp0_prop, cp1_prop, next_prop,
+		last_non_cm_or_zwj_prop, last_non_sp_prop,
+		last_non_sp_cm_or_zwj_prop;
 	uint_least32_t cp;
 	uint_least8_t lb25_level = 0;
 	bool lb21a_flag = false, ri_even = true;
@@ -376,14 +377,26 @@ next_line_break(HERODOTUS_READER *r)
 			 * two adjacent codepoints as we have it with
 			 * characters.
 			 */
-			herodotus_reader_copy(r, &tmp);
-			herodotus_read_codepoint(&tmp, true, &cp);
-			if (herodotus_read_codepoint(&tmp, true, &cp) ==
-			            HERODOTUS_STATUS_SUCCESS &&
-			    (cp1_prop == LINE_BREAK_PROP_OP_WITHOUT_EAW_HWF ||
-			     cp1_prop == LINE_BREAK_PROP_OP_WITH_EAW_HWF ||
-			     cp1_prop == LINE_BREAK_PROP_HY)) {
-				if (get_break_prop(cp) == LINE_BREAK_PROP_NU) {
+			if (cp1_prop == LINE_BREAK_PROP_OP_WITHOUT_EAW_HWF ||
+			    cp1_prop == LINE_BREAK_PROP_OP_WITH_EAW_HWF ||
+			    cp1_prop == LINE_BREAK_PROP_HY) {
+				/*
+				 * find the next property, ignoring
+				 * combining marks and ZWJ due to LB9
+				 */
+				herodotus_reader_copy(r, &tmp);
+				herodotus_read_codepoint(&tmp, true, &cp);
+				next_prop = NUM_LINE_BREAK_PROPS;
+				while (herodotus_read_codepoint(&tmp, true,
+				                                &cp) ==
+				       HERODOTUS_STATUS_SUCCESS) {
+					next_prop = get_break_prop(cp);
+					if (next_prop != LINE_BREAK_PROP_CM &&
+					    next_prop != LINE_BREAK_PROP_ZWJ) {
+						break;
+					}
+				}
+				if (next_prop == LINE_BREAK_PROP_NU) {
 					continue;
 				}
 			}
-- 
2.43.0


From c5f2ba26848467a7cbab3d513f3d90cfafc4ac02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:52 +0000
Subject: [PATCH 14/22] fix: line: treat unassigned pictographs as ID (LB23a)

---
 src/line.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/line.c b/src/line.c
index e47dae1..525d2c2 100644
--- a/src/line.c
+++ b/src/line.c
@@ -340,11 +340,14 @@ next_line_break(HERODOTUS_READER *r)
 		/* LB23a */
 		if (last_non_cm_or_zwj_prop == LINE_BREAK_PROP_PR &&
 		    (cp1_prop == LINE_BREAK_PROP_ID ||
+		     cp1_prop == LINE_BREAK_PROP_BOTH_CN_EXTPICT ||
 		     cp1_prop == LINE_BREAK_PROP_EB ||
 		     cp1_prop == LINE_BREAK_PROP_EM)) {
 			continue;
 		}
 		if ((last_non_cm_or_zwj_prop == LINE_BREAK_PROP_ID ||
+		     last_non_cm_or_zwj_prop ==
+		             LINE_BREAK_PROP_BOTH_CN_EXTPICT ||
 		     last_non_cm_or_zwj_prop == LINE_BREAK_PROP_EB ||
 		     last_non_cm_or_zwj_prop == LINE_BREAK_PROP_EM) &&
 		    cp1_prop == LINE_BREAK_PROP_PO) {
-- 
2.43.0


From 0d729935770a065ed2221301a0f158c0c7c79485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:27 +0000
Subject: [PATCH 15/22] fix: line: resolve SA marks and unassigned ranges
 correctly (LB1)

---
 gen/line.c | 32 ++++++++++++++++++++++++--------
 gen/util.c |  6 ++++--
 2 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/gen/line.c b/gen/line.c
index 2e08acc..c4aacd4 100644
--- a/gen/line.c
+++ b/gen/line.c
@@ -22,7 +22,9 @@ static const struct property_spec line_break_property[] = {
 	 * the extpict-class is filled, then the cn-class, which leads
 	 * to conflicts (that we handle by putting them in the "proper"
 	 * class BOTH_CN_EXTPICT). We make use of the fact that there
-	 * is no intersection between AL and Cn.
+	 * is no intersection between AL and Cn. Given all codepoints
+	 * in the intersection are ID, the codepoints that are both Cn
+	 * and ID are collected in the third temporary class TMP_CN_ID.
 	 *
 	 * Any consecutive conflicts are permitted to overwrite
 	 * TMP_EXTENDED_PICTOGRAPHIC and TMP_CN, because we don't need
@@ -35,6 +37,11 @@ static const struct property_spec line_break_property[] = {
 		.file = FILE_LINE,
 		.ucdname = "Cn",
 	},
+	{
+		.enumname = "TMP_CN_ID",
+		.file = NULL,
+		.ucdname = NULL,
+	},
 	{
 		.enumname = "TMP_EXTENDED_PICTOGRAPHIC",
 		.file = FILE_EMOJI,
@@ -273,8 +280,8 @@ static const struct property_spec line_break_property[] = {
 	},
 	{
 		.enumname = "TMP_SA_WITH_MN_OR_MC",
-		.file = FILE_LINE,
-		.ucdname = "SA",
+		.file = NULL,
+		.ucdname = NULL,
 	},
 	{
 		.enumname = "TMP_SG",
@@ -340,10 +347,10 @@ handle_conflict(uint_least32_t cp, uint_least8_t prop1, uint_least8_t prop2)
 	           (!strcmp(line_break_property[prop2].enumname, "TMP_MN") ||
 	            !strcmp(line_break_property[prop2].enumname, "TMP_MC"))) {
 		if (!strcmp(line_break_property[prop1].enumname,
-		            "SA_WITHOUT_MN_OR_MC") ||
+		            "TMP_SA_WITHOUT_MN_OR_MC") ||
 		    !strcmp(line_break_property[prop2].enumname,
-		            "SA_WITHOUT_MN_OR_MC")) {
-			target = "SA_WITH_MN_OR_MC";
+		            "TMP_SA_WITHOUT_MN_OR_MC")) {
+			target = "TMP_SA_WITH_MN_OR_MC";
 		} else {
 			/* ignore Mn and Mc for the rest */
 			if ((!strcmp(line_break_property[prop1].enumname,
@@ -362,6 +369,9 @@ handle_conflict(uint_least32_t cp, uint_least8_t prop1, uint_least8_t prop2)
 		    !strcmp(line_break_property[prop2].enumname,
 		            "TMP_EXTENDED_PICTOGRAPHIC")) {
 			target = "BOTH_CN_EXTPICT";
+		} else if (!strcmp(line_break_property[prop1].enumname, "ID") ||
+		           !strcmp(line_break_property[prop2].enumname, "ID")) {
+			target = "TMP_CN_ID";
 		} else {
 			/* ignore Cn for all the other properties */
 			if (!strcmp(line_break_property[prop1].enumname,
@@ -375,8 +385,8 @@ handle_conflict(uint_least32_t cp, uint_least8_t prop1, uint_least8_t prop2)
 	                   "TMP_EXTENDED_PICTOGRAPHIC") ||
 	           !strcmp(line_break_property[prop2].enumname,
 	                   "TMP_EXTENDED_PICTOGRAPHIC")) {
-		if (!strcmp(line_break_property[prop1].enumname, "TMP_CN") ||
-		    !strcmp(line_break_property[prop2].enumname, "TMP_CN")) {
+		if (!strcmp(line_break_property[prop1].enumname, "TMP_CN_ID") ||
+		    !strcmp(line_break_property[prop2].enumname, "TMP_CN_ID")) {
 			target = "BOTH_CN_EXTPICT";
 		} else {
 			/* ignore Extended_Pictographic for all the other
@@ -445,6 +455,12 @@ post_process(struct properties *prop)
 		                   "TMP_CJ")) {
 			/* map CJ to NS */
 			target = "NS";
+		} else if (!strcmp(line_break_property[prop[i].property]
+		                           .enumname,
+		                   "TMP_CN_ID")) {
+			/* map (unassigned) ID, that is not a pictograph, to ID
+			 */
+			target = "ID";
 		} else if (
 			!strcmp(line_break_property[prop[i].property].enumname,
 		                "TMP_CN") ||
diff --git a/gen/util.c b/gen/util.c
index 6f21906..d770568 100644
--- a/gen/util.c
+++ b/gen/util.c
@@ -311,7 +311,10 @@ properties_callback(const char *file, char **field, size_t nfields,
 	}
 
 	for (i = 0; i < p->speclen; i++) {
-		/* identify fitting file and identifier */
+		/*
+		 * identify fitting file and identifier, more than one
+		 * can match as they also refer to the comment
+		 */
 		if (p->spec[i].file && !strcmp(p->spec[i].file, file) &&
 		    (!strcmp(p->spec[i].ucdname, field[1]) ||
 		     (comment != NULL &&
@@ -329,7 +332,6 @@ properties_callback(const char *file, char **field, size_t nfields,
 					exit(1);
 				}
 			}
-			break;
 		}
 	}
 
-- 
2.43.0


From 15b33de77f2cce21d63bf044260356e324f22122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:50 +0000
Subject: [PATCH 16/22] fix: case: let a cased character after ignorables begin
 anew (Final_Sigma)

---
 src/case.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/case.c b/src/case.c
index 6fac8ec..42ad226 100644
--- a/src/case.c
+++ b/src/case.c
@@ -110,11 +110,10 @@ to_case(HERODOTUS_READER *r, HERODOTUS_WRITER *w,
 
 			/* update state */
 			prop = get_case_property(cp);
-			if ((final_sigma_level == 0 ||
-			     final_sigma_level == 1) &&
-			    (prop == CASE_PROP_CASED ||
+			if (prop == CASE_PROP_CASED ||
+			    (final_sigma_level != 2 &&
 			     prop == CASE_PROP_BOTH_CASED_CASE_IGNORABLE)) {
-				/* sequence has begun */
+				/* sequence has (possibly anew) begun */
 				final_sigma_level = 1;
 			} else if (
 				(final_sigma_level == 1 ||
-- 
2.43.0


From 9e894cc71bf0aaecaf8c612c6d508362777a38e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:00 +0000
Subject: [PATCH 17/22] fix: case: consider the context beyond the word for
 Final_Sigma

---
 src/case.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/case.c b/src/case.c
index 42ad226..587c519 100644
--- a/src/case.c
+++ b/src/case.c
@@ -71,8 +71,14 @@ to_case(HERODOTUS_READER *r, HERODOTUS_WRITER *w,
 				 * all case-ignorable characters and then
 				 * checking if the succeeding character is
 				 * cased, invalidating the after-condition
+				 *
+				 * Soft limits are lifted as the context is
+				 * not limited to the current word.
 				 */
 				herodotus_reader_copy(r, &tmp);
+				for (i = 0; i < LEN(tmp.soft_limit); i++) {
+					tmp.soft_limit[i] = SIZE_MAX;
+				}
 				for (prop = NUM_CASE_PROPS;
 				     (s = herodotus_read_codepoint(&tmp, true,
 				                                   &tmp_cp)) ==
-- 
2.43.0


From e1911d42103a37dbaf6e7899e3629b0f41086861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:12 +0000
Subject: [PATCH 18/22] fix: util: read malformed sequences before a soft limit

---
 src/util.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/util.c b/src/util.c
index 4d9a8a4..8d0a20d 100644
--- a/src/util.c
+++ b/src/util.c
@@ -147,9 +147,13 @@ herodotus_read_codepoint(HERODOTUS_READER *r, bool advance, uint_least32_t *cp)
 		*cp = ((const uint_least32_t *)(r->src))[r->off];
 		ret = 1;
 	} else { /* r->type == HERODOTUS_TYPE_UTF8 */
-		ret = grapheme_decode_utf8(
-			(const char *)r->src + r->off,
-			MIN(r->srclen, r->soft_limit[0]) - r->off, cp);
+		/*
+		 * we do not let the soft limit cut off what follows, as
+		 * this would make a malformed sequence before the limit
+		 * look like an incomplete one
+		 */
+		ret = grapheme_decode_utf8((const char *)r->src + r->off,
+		                           r->srclen - r->off, cp);
 	}
 
 	if (unlikely(r->srclen == SIZE_MAX && *cp == 0)) {
-- 
2.43.0


From dc366323ff5896b45c139f07284b5f7a1e68ac0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:07 +0000
Subject: [PATCH 19/22] fix: case: default to the uppercase mapping for
 titlecase in the tables

---
 gen/case.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/gen/case.c b/gen/case.c
index c9f3501..9e81b4d 100644
--- a/gen/case.c
+++ b/gen/case.c
@@ -89,14 +89,19 @@ unicodedata_callback(const char *file, char **field, size_t nfields,
 
 	hextocp(field[0], strlen(field[0]), &cp);
 
-	upper = lower = title = cp;
+	upper = lower = cp;
 
 	if ((strlen(field[12]) > 0 &&
 	     hextocp(field[12], strlen(field[12]), &upper)) ||
 	    (strlen(field[13]) > 0 &&
-	     hextocp(field[13], strlen(field[13]), &lower)) ||
-	    (nfields >= 15 && strlen(field[14]) > 0 &&
-	     hextocp(field[14], strlen(field[14]), &title))) {
+	     hextocp(field[13], strlen(field[13]), &lower))) {
+		return 1;
+	}
+
+	/* an empty titlecase mapping is the same as the uppercase mapping */
+	title = upper;
+	if (nfields >= 15 && strlen(field[14]) > 0 &&
+	    hextocp(field[14], strlen(field[14]), &title)) {
 		return 1;
 	}
 
-- 
2.43.0


From 70987f94a953753a82ab38f8ae05e0f91aeed384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:26 +0000
Subject: [PATCH 20/22] fix: gen: skip indented comments and lines of spaces

---
 gen/util.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gen/util.c b/gen/util.c
index d770568..9ccd27a 100644
--- a/gen/util.c
+++ b/gen/util.c
@@ -207,8 +207,9 @@ parse_file_with_callback(const char *fname,
 			len--;
 		}
 
-		/* skip empty lines and comment lines */
-		if (len == 0 || line[0] == '#') {
+		/* skip empty lines and comment lines, indented or not */
+		i = strspn(line, " ");
+		if (line[i] == '\0' || line[i] == '#') {
 			continue;
 		}
 
-- 
2.43.0


From dd8ec373edc0f7a2d10949d366f273ca969649b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:53 +0000
Subject: [PATCH 21/22] fix: bidirectional: don't truncate the distance to a
 mirrored character

The table's type is chosen by the generator and becomes wider than 16 bits
if the data contains characters whose mirrored counterpart is further away.
---
 src/bidirectional.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bidirectional.c b/src/bidirectional.c
index 939e45d..16e0646 100644
--- a/src/bidirectional.c
+++ b/src/bidirectional.c
@@ -1459,7 +1459,7 @@ set_level_uint32(void *lev, size_t off, int_least8_t value)
 	((uint_least32_t *)lev)[off] |= ((uint_least32_t)(value + 1)) << 21;
 }
 
-static inline int_least16_t
+static inline int_least32_t
 get_mirror_offset(uint_least32_t cp)
 {
 	if (cp <= UINT32_C(0x10FFFF)) {
-- 
2.43.0


From fd13c6cf15794cbffbbf441ba623a1b3527ef8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:22 +0000
Subject: [PATCH 22/22] fix: case: don't begin the Final_Sigma-context with a
 case-ignorable character

A character that is both cased and case-ignorable (e.g. U+02B0, U+0345)
is part of the case-ignorable sequence and cannot satisfy the condition
before the sigma by itself.
---
 src/case.c | 52 +++++++++++++++++++++++++++++++++-------------------
 1 file changed, 33 insertions(+), 19 deletions(-)

diff --git a/src/case.c b/src/case.c
index 587c519..471a2b5 100644
--- a/src/case.c
+++ b/src/case.c
@@ -35,7 +35,7 @@ get_case_offset(uint_least32_t cp, const uint_least16_t *major,
 
 static inline size_t
 to_case(HERODOTUS_READER *r, HERODOTUS_WRITER *w,
-        uint_least8_t final_sigma_level, const uint_least16_t *major,
+        uint_least8_t *final_sigma_level, const uint_least16_t *major,
         const int_least32_t *minor, const struct special_case *sc)
 {
 	HERODOTUS_READER tmp;
@@ -64,8 +64,8 @@ to_case(HERODOTUS_READER *r, HERODOTUS_WRITER *w,
 			 */
 			if (cp == UINT32_C(0x03A3) && /* GREEK CAPITAL LETTER
 			                                 SIGMA */
-			    (final_sigma_level == 1 ||
-			     final_sigma_level == 2)) {
+			    (*final_sigma_level == 1 ||
+			     *final_sigma_level == 2)) {
 				/*
 				 * check succeeding characters by first skipping
 				 * all case-ignorable characters and then
@@ -109,29 +109,27 @@ to_case(HERODOTUS_READER *r, HERODOTUS_WRITER *w,
 
 					/* reset Final_Sigma-state and continue
 					 */
-					final_sigma_level = 0;
+					*final_sigma_level = 0;
 					continue;
 				}
 			}
 
 			/* update state */
 			prop = get_case_property(cp);
-			if (prop == CASE_PROP_CASED ||
-			    (final_sigma_level != 2 &&
-			     prop == CASE_PROP_BOTH_CASED_CASE_IGNORABLE)) {
+			if (prop == CASE_PROP_CASED) {
 				/* sequence has (possibly anew) begun */
-				final_sigma_level = 1;
+				*final_sigma_level = 1;
 			} else if (
-				(final_sigma_level == 1 ||
-			         final_sigma_level == 2) &&
+				(*final_sigma_level == 1 ||
+			         *final_sigma_level == 2) &&
 				(prop == CASE_PROP_CASE_IGNORABLE ||
 			         prop == CASE_PROP_BOTH_CASED_CASE_IGNORABLE)) {
 				/* case-ignorable sequence begins or continued
 				 */
-				final_sigma_level = 2;
+				*final_sigma_level = 2;
 			} else {
 				/* sequence broke */
-				final_sigma_level = 0;
+				*final_sigma_level = 0;
 			}
 		}
 
@@ -177,6 +175,7 @@ to_titlecase(HERODOTUS_READER *r, HERODOTUS_WRITER *w)
 	enum case_property prop;
 	enum herodotus_status s;
 	uint_least32_t cp;
+	uint_least8_t final_sigma_level = 0;
 	size_t nwb;
 
 	for (; (nwb = herodotus_next_word_break(r)) > 0;) {
@@ -187,8 +186,18 @@ to_titlecase(HERODOTUS_READER *r, HERODOTUS_WRITER *w)
 			prop = get_case_property(cp);
 			if (prop == CASE_PROP_CASED ||
 			    prop == CASE_PROP_BOTH_CASED_CASE_IGNORABLE) {
+				/* update Final_Sigma-state */
+				if (prop == CASE_PROP_CASED) {
+					final_sigma_level = 1;
+				}
+
 				break;
 			} else {
+				/* update Final_Sigma-state */
+				if (prop != CASE_PROP_CASE_IGNORABLE) {
+					final_sigma_level = 0;
+				}
+
 				/* write the data to the output verbatim, it if
 				 * permits */
 				herodotus_write_codepoint(w, cp);
@@ -216,13 +225,14 @@ to_titlecase(HERODOTUS_READER *r, HERODOTUS_WRITER *w)
 			 */
 			herodotus_reader_push_advance_limit(
 				r, herodotus_reader_next_codepoint_break(r));
-			to_case(r, w, 0, title_major, title_minor,
-			        title_special);
+			to_case(r, w, &final_sigma_level, title_major,
+			        title_minor, title_special);
 			herodotus_reader_pop_limit(r);
 		}
 
 		/* cast the rest of the codepoints in the word to lowercase */
-		to_case(r, w, 1, lower_major, lower_minor, lower_special);
+		to_case(r, w, &final_sigma_level, lower_major, lower_minor,
+		        lower_special);
 
 		/* remove the limit on the word before the next iteration */
 		herodotus_reader_pop_limit(r);
@@ -243,7 +253,8 @@ grapheme_to_uppercase(const uint_least32_t *src, size_t srclen,
 	herodotus_reader_init(&r, HERODOTUS_TYPE_CODEPOINT, src, srclen);
 	herodotus_writer_init(&w, HERODOTUS_TYPE_CODEPOINT, dest, destlen);
 
-	return to_case(&r, &w, 0, upper_major, upper_minor, upper_special);
+	return to_case(&r, &w, &(uint_least8_t){ 0 }, upper_major, upper_minor,
+	               upper_special);
 }
 
 size_t
@@ -256,7 +267,8 @@ grapheme_to_lowercase(const uint_least32_t *src, size_t srclen,
 	herodotus_reader_init(&r, HERODOTUS_TYPE_CODEPOINT, src, srclen);
 	herodotus_writer_init(&w, HERODOTUS_TYPE_CODEPOINT, dest, destlen);
 
-	return to_case(&r, &w, 0, lower_major, lower_minor, lower_special);
+	return to_case(&r, &w, &(uint_least8_t){ 0 }, lower_major, lower_minor,
+	               lower_special);
 }
 
 size_t
@@ -282,7 +294,8 @@ grapheme_to_uppercase_utf8(const char *src, size_t srclen, char *dest,
 	herodotus_reader_init(&r, HERODOTUS_TYPE_UTF8, src, srclen);
 	herodotus_writer_init(&w, HERODOTUS_TYPE_UTF8, dest, destlen);
 
-	return to_case(&r, &w, 0, upper_major, upper_minor, upper_special);
+	return to_case(&r, &w, &(uint_least8_t){ 0 }, upper_major, upper_minor,
+	               upper_special);
 }
 
 size_t
@@ -295,7 +308,8 @@ grapheme_to_lowercase_utf8(const char *src, size_t srclen, char *dest,
 	herodotus_reader_init(&r, HERODOTUS_TYPE_UTF8, src, srclen);
 	herodotus_writer_init(&w, HERODOTUS_TYPE_UTF8, dest, destlen);
 
-	return to_case(&r, &w, 0, lower_major, lower_minor, lower_special);
+	return to_case(&r, &w, &(uint_least8_t){ 0 }, lower_major, lower_minor,
+	               lower_special);
 }
 
 size_t
-- 
2.43.0

