#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the statements are easy to review)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=observe, hook_needed=None)))
WIN = ("window", "the byte range of the source a matcher may read (context offset start..end)", "src/parser_context.rs ParserContext::offset")

p("C01", "Literal matching is exact",
  "Running an Equals matcher at a position succeeds exactly when its literal text (given directly or fetched from a variable) is non-empty and the text of the current window begins with it; the result is then one token carrying the matcher's name whose captured and matched ranges both span exactly that text. In every other case the result is an ordinary failure (a variable holding a matcher instead of text is a fatal error), and in no case does matching move the caller's window or alter an existing token.",
  ["inputs"], "every source text, every valid window of it, every literal, every matcher name",
  "The unit tests try a handful of ASCII literals at offset 0 of one short text with the full window; they cannot cover all windows (including ones ending inside a candidate match), texts and literals.",
  ["src/matchers/equals.rs", "src/parser_context.rs"],
  [("EqualsPattern::exec", "src/matchers/equals.rs"), ("ParserContext::matches_str", "src/parser_context.rs")],
  ["result of exec / ParserContext::tokenize"], [WIN])

p("C02", "Regex matching is anchored at the current position",
  "Running a Matches matcher succeeds with a token only when the leftmost match of its regular expression in the text of the current window is non-empty and begins exactly at the window start; the token carries the matcher's name and its captured and matched ranges span exactly that match. A zero-width match at the window start yields a skip of zero, anything else is an ordinary failure, and text outside the window never influences the outcome.",
  ["inputs"], "every source text, every valid window, every regular expression",
  "Tests run a few patterns on one text; an anchoring or offset-translation slip shows only for windows that do not begin at 0 or end before the text does, or for expressions that match later in the window.",
  ["src/matchers/matches.rs", "src/parser_context.rs"],
  [("MatchesPattern::exec", "src/matchers/matches.rs"), ("ParserContext::matches_regexp", "src/parser_context.rs")],
  ["result of exec / ParserContext::tokenize"], [WIN])

p("C03", "Delimited sequences honour delimiters, escapes and the window",
  "Running a Sequence matcher succeeds exactly when the window begins with the start delimiter and, scanning on from it, an end delimiter that is not protected by an escape is met inside the window; an escape text protects the one character that follows it and an empty escape text protects nothing. The token's matched range covers both delimiters, its captured range the text between them, and its value is that text with the escape texts removed; it never panics on any text, including multi-byte characters, and otherwise fails in the ordinary way.",
  ["inputs"], "every source text (any UTF-8), every valid window, every non-empty start and end delimiter and every escape text",
  "The tests use a few ASCII quotes and backslashes; they reach neither multi-byte text, multi-character delimiters or escapes, adjacent escapes, nor an end delimiter cut by the window end.",
  ["src/matchers/sequence.rs", "src/parser_context.rs"],
  [("SequencePattern::exec", "src/matchers/sequence.rs"), ("ParserContext::matches_str_at_offset", "src/parser_context.rs")],
  ["result of exec"], [WIN])

p("C04", "A program runs its patterns in order, each where the last one ended",
  "A Program runs its patterns once each, in order, each at the position where the consuming patterns before it stopped (the end of a returned token's matched range, or the skipped amount), and fails as soon as one fails or if nothing was captured. On success it yields one token with the program's name whose children are exactly the captured tokens in order (a flattened result contributes its own children, and parsing resumes at the end of the flattened match), each child's parent being that token, and whose captured and matched ranges are the smallest covering the pieces consumed. Non-consuming patterns and discarded tokens never move the position or the ranges.",
  ["inputs", "programs"], "every list of patterns and every sequence of results those patterns return, at every window",
  "Tests compose two or three literal matchers; the property is about every list length and every mix of token, flattened, skip, pinned and non-consuming results.",
  ["src/matchers/program.rs"],
  [("ProgramPattern::exec", "src/matchers/program.rs"), ("handle_token / handle_extract_token / handle_skip / finalize_program_token", "src/matchers/program.rs")],
  ["the context handed to each pattern", "the returned token"], [WIN])

p("C05", "A switch is ordered choice",
  "A Switch tries its alternatives in order, all at the same position, and its result is the result of the first alternative that matches something, passed on unchanged; no later alternative is run. Alternatives that fail, skip nothing or yield a discardable token are passed over, a Break or Continue signal is passed on as that same signal, and the switch fails only when no alternative matched.",
  ["inputs", "programs"], "every list of alternatives and every sequence of results they return",
  "Tests cover two alternatives of literals; ordering, first-match and same-position must hold for all lists and all kinds of results.",
  ["src/matchers/program.rs"],
  [("ProgramPattern::exec with MatchAction::Stop", "src/matchers/program.rs")],
  ["the context handed to each alternative", "the returned result"], [WIN])

p("C06", "Loops respect their bounds and loop signals",
  "A Loop over min..max runs its patterns repeatedly from where the last run ended, at most max times, ending early when a pattern fails, a Stop arrives or a Break addressed to it (by its name or anonymously) arrives; if it ended for want of a further match after fewer than min complete runs it fails, a loop that ends with nothing captured fails like any other program, and only a loop with min zero that ends normally without completing a run skips nothing instead. A Break or Continue addressed to another loop ends this loop at once and is passed outward under the same loop name together with what was matched so far; a Continue addressed to this loop starts its next run.",
  ["inputs", "programs"], "every range, every list of patterns, every sequence of results the patterns return, every loop nesting",
  "Tests exercise 0.. and one small range; the bounds, zero-match and nested named break/continue cases range over unbounded histories of iterations.",
  ["src/matchers/program.rs", "src/matchers/break.rs"],
  [("ProgramPattern::exec with a range", "src/matchers/program.rs"), ("get_range", "src/matchers/program.rs"), ("BreakPattern::exec", "src/matchers/break.rs")],
  ["number of runs of the patterns", "the returned result"], [WIN])

p("C07", "Optional and negative look-ahead never consume on absence",
  "Optional returns its pattern's success unchanged and turns an ordinary failure into a skip of zero. Not turns any match that consumed or captured something into an ordinary failure, turns an ordinary failure into a skip of zero, and passes zero-width and signalling results on unchanged; both run the pattern exactly once at the caller's own window.",
  ["inputs", "programs"], "every pattern and every result it can return",
  "Tests use literal patterns only; the cases of skips of any amount, signals and nested results are never produced.",
  ["src/matchers/optional.rs", "src/matchers/not.rs"],
  [("OptionalPattern::exec", "src/matchers/optional.rs"), ("NotPattern::exec", "src/matchers/not.rs")],
  ["result of exec"])

p("C08", "Fatal errors stop the parse and surface unchanged",
  "When a pattern run by Program, Switch, Loop, Optional, Not, Discard, ProxyChildren, ExpandRange, Store, Ref, Pin, SetScope, Debug, AssertIf, AssertIfNot or tokenize reports a fatal error, that call returns exactly that error (same message and range) and runs no further pattern; it is never turned into a success, a skip or an ordinary failure.",
  ["inputs", "programs"], "every combinator, every position of the failing pattern among its siblings, every error",
  "Tests raise an error in two or three fixed compositions; the guarantee is over all combinators, positions and nestings.",
  ["src/matchers", "src/parser_context.rs"],
  [("each combinator's exec", "src/matchers/*.rs"), ("ParserContext::tokenize", "src/parser_context.rs")],
  ["result of exec / tokenize"])

p("C09", "Discard drops tokens but not length or errors",
  "Discard replaces a captured or flattened token by a skip whose amount is the distance from the window start to the end of that token's matched range, so parsing resumes exactly where it would have; skips, signals and failures pass through with any token inside a signal discarded the same way. If the discarded tree contains error tokens at any depth, a token named Error is returned instead whose children are exactly those error tokens in document order and whose matched range covers the discarded match and all of them.",
  ["inputs", "programs"], "every pattern result and every token tree",
  "Tests discard single literal tokens; trees with errors at several depths, and signals carrying tokens, are not covered.",
  ["src/matchers/discard.rs"],
  [("DiscardPattern::exec", "src/matchers/discard.rs"), ("collect_errors / skip_token", "src/matchers/discard.rs")],
  ["result of exec"])

p("C10", "Scopes shadow and unwind correctly",
  "Looking a name up yields the value set in the innermost scope that defines it and nothing if none does; setting a name affects only the innermost scope (creating one if there is none) and replaces only that name. SetScope runs its pattern once, exactly once enters the new or given scope, and whatever the pattern returns the caller's scope stack is afterwards as deep as before, with the pattern's result passed on unchanged.",
  ["inputs", "histories"], "every stack of scopes, every name, every value, every history of sets, every result of the scoped pattern",
  "The unit test uses two scopes with one key; shadowing must hold for all depths, and unwinding for all outcomes including failures and errors.",
  ["src/scope.rs", "src/scope_context.rs", "src/matchers/set_scope.rs"],
  [("ScopeContext::get / set", "src/scope_context.rs"), ("Scope::get / set", "src/scope.rs"), ("SetScopePattern::exec", "src/matchers/set_scope.rs")],
  ["ScopeContext::get", "scope stack after exec"])

p("C11", "Stored variables, references and names resolve through the scope",
  "Store puts the token its pattern produced (or its fixed text) under its name in the current scope and passes the result on, storing nothing when no token was produced. Fetching name.attribute yields the value, matched text, start, end or range of that stored token, and fetching a bare name yields the stored text; Ref runs the matcher registered under its name at the caller's window, runs it exactly once and passes its result on unchanged. Register, and any matcher given a custom name, make themselves known in the current scope under their name when run.",
  ["inputs", "histories"], "every name, value, token and scope content",
  "Tests use a single variable in one scope and two of the attributes.",
  ["src/matchers/store.rs", "src/matchers/fetch.rs", "src/matchers/ref.rs", "src/matchers/register.rs", "src/matcher.rs"],
  [("StorePattern::exec", "src/matchers/store.rs"), ("FetchPattern::fetch_value", "src/matchers/fetch.rs"), ("RefPattern::exec", "src/matchers/ref.rs"), ("RegisterPattern::exec", "src/matchers/register.rs"), ("Matcher::before_exec", "src/matcher.rs")],
  ["ScopeContext::get after exec", "result of fetch_value / exec"])

p("C12", "Line and column numbers are right",
  "For any range of any source, the reported first and last line are one plus the number of line breaks (CRLF counting once, lone CR and lone LF once each) found in the text before the range's start and end. The reported columns are one plus the byte distance from the start of the line each end lies on, the last column never being smaller than the first, and error messages carry the file name, those lines, those columns and the message.",
  ["inputs"], "every source text and every range of it",
  "Tests check seven fixed ranges of one four-line text.",
  ["src/parser_context.rs"],
  [("ParserContext::get_lines / get_columns / get_error_as_string", "src/parser_context.rs")],
  ["returned line and column pairs", "error message"])

p("C13", "Token text always agrees with token ranges",
  "A freshly made token's captured and matched text are exactly the bytes of the source its captured and matched ranges denote, for any UTF-8 source, and for a standard token remain so after either range is set. A token's value is its __value attribute if present, else its explicitly set value, else its captured text; setting, enabling and disabling flags and setting attributes, name, parent or children change exactly that and nothing else, and child lookup by name finds the first child of that name.",
  ["inputs", "histories"], "every source, range, name, attribute map, flag set and history of setter calls",
  "Tests read back a few ASCII tokens; agreement must hold for all sources (multi-byte text) and histories of updates.",
  ["src/token.rs", "adextopa_macros/src/lib.rs", "src/source_range.rs", "src/matchers/pin.rs"],
  [("StandardToken::new / new_with_matched_range", "src/token.rs"), ("derive(Token)", "adextopa_macros/src/lib.rs"), ("SourceRange::to_string", "src/source_range.rs"), ("Token::find_child", "src/token.rs")],
  ["Token accessors"])

p("C14", "The visitor calls one hook per token, in document order",
  "Visiting a token tree calls, for every token in pre-order (parent before children, children left to right), the first hook registered for the token's name, or the default hook when no hook has that name, exactly once. The first hook that returns an error ends the visit at once and that error is the result; otherwise the visit succeeds.",
  ["inputs"], "every token tree and every set of hooks",
  "Tests visit one small tree with one hook set.",
  ["src/token_visitor.rs"],
  [("TokenVisitor::visit", "src/token_visitor.rs")],
  ["sequence of hook calls", "result of visit"])

p("C15", "Tokenize separates errors from the tree without losing either",
  "Tokenize runs the given matcher once with the context's own scope. When it succeeds the returned token's tree contains no error token below the top level's children, every error token removed from deeper levels has been appended to the top token's children exactly once (errors inside a child before the child itself, children left to right), and every other token stays where it was in its original order; any other outcome that carries no token is an ordinary failure.",
  ["inputs", "programs"], "every token tree the matcher can return, with any number of errors at any depth",
  "Tests have one or two error tokens at depth one or two.",
  ["src/parser_context.rs"],
  [("ParserContext::tokenize", "src/parser_context.rs"), ("ParserContext::collect_errors", "src/parser_context.rs")],
  ["token returned by tokenize"])

p("C16", "Repeat specifiers map to the repetition they denote",
  "In a script, * denotes zero or more, + one or more, {min, max} at least min and at most max, {min,} at least min and {max} at most max repetitions; malformed, reversed or overflowing numbers are reported as an error and never accepted as some other range.",
  ["inputs"], "every repeat specifier token tree",
  "Tests check three specifiers.",
  ["src/script/v1/matchers/repeat_specifier.rs"],
  [("get_repeat_specifier_range", "src/script/v1/matchers/repeat_specifier.rs")],
  ["returned range or error"])

p("C17", "Script definitions build the matchers they describe",
  "From the token tree of a pattern definition the matcher built is the one it describes: literal, regular expression (with its flags), sequence, reference, program or switch with its patterns in order; then its name, its attributes, the inner optional or not, the repetition, the outer optional or not, in that nesting; and a definition that is not captured is discarded. An unusable definition is reported as an error and builds nothing; assignments bind the built matcher (or a reference to the named one) under exactly the assigned name.",
  ["inputs", "programs"], "every pattern definition token tree",
  "Tests compile a dozen fixed scripts; the combinations of modifiers, repetition, attributes, capture and nesting are unbounded.",
  ["src/script/v1/parser.rs"],
  [("construct_matcher_from_inner_definition / construct_matcher_from_pattern_definition / construct_matcher_from_pattern / build_matcher_from_tokens", "src/script/v1/parser.rs")],
  ["matcher returned by compile_script"])

p("C18", "Pins look elsewhere and leave the position alone",
  "A Pin evaluates its offset text (absolute n, +n or -n relative to the current start, empty for unchanged, and optionally ..end of the same form relative to the new start) into a new window and runs its pattern exactly once on it, passing the result on, or, without a pattern, yields a discardable token spanning that window. The caller's own window is never changed and a pin reports itself as non-consuming.",
  ["inputs"], "every offset text of that form, every window, every pattern result",
  "Tests pin to three or four fixed offsets.",
  ["src/matchers/pin.rs"],
  [("PinPattern::exec", "src/matchers/pin.rs"), ("parse_offset", "src/matchers/pin.rs")],
  ["window handed to the pattern", "result of exec"], [WIN])

p("C19", "Transforming and diagnostic matchers report exactly what they saw",
  "Map calls its success function exactly once with the token produced (captured or flattened) and its failure function exactly once on a failure, returning what they return, and passes every other result on; Catch calls its function only on a failure. An Error matcher yields an error-flagged token named Error at the current position with its message; Panic, FatalIf and FatalIfNot abort with their message under exactly their condition, and AssertIf and AssertIfNot yield an error token under exactly theirs and otherwise consume nothing.",
  ["inputs", "programs"], "every pattern result, message, window and token stack",
  "Tests trigger each with one literal pattern.",
  ["src/matchers/map.rs", "src/matchers/catch.rs", "src/matchers/error.rs", "src/matchers/panic.rs", "src/matchers/assert_if.rs", "src/matchers/assert_if_not.rs", "src/matchers/fatal_if.rs", "src/matchers/fatal_if_not.rs"],
  [("MapPattern::exec", "src/matchers/map.rs"), ("CatchPattern::exec", "src/matchers/catch.rs"), ("new_error_token", "src/matchers/error.rs"), ("PanicPattern::exec", "src/matchers/panic.rs")],
  ["result of exec", "calls of the functions given"])

p("C20", "Flattening and range expansion change only the wrapping",
  "ProxyChildren turns a token result, also inside a Break or Continue signal, into a flattened result of the same token and passes every other result on unchanged. ExpandRange wraps a token in a flattened ExpandRange token whose ranges are both the token's matched range and whose only child is that token, sets a flattened token's captured range to its matched range, and passes every other result on unchanged; each runs its pattern exactly once at the caller's window.",
  ["inputs", "programs"], "every pattern result",
  "Tests flatten one literal program.",
  ["src/matchers/proxy_children.rs", "src/matchers/expand_range.rs"],
  [("ProxyChildrenPattern::exec", "src/matchers/proxy_children.rs"), ("ExpandRange::exec", "src/matchers/expand_range.rs")],
  ["result of exec"])

p("C21", "The script grammar accepts exactly the documented language",
  "Compiling a script succeeds exactly when the text is in the documented pattern language, and the token tree it produces is the one the documentation describes for that text.",
  ["inputs"], "every script text",
  "The tests compile a dozen scripts.",
  ["src/script/v1/matchers", "playground.txt"],
  [("Script! grammar", "src/script/v1/matchers/script.rs")],
  ["result of compile_script"])

p("C22", "Parsing terminates",
  "Running any finite matcher tree on any finite source terminates, so that a loop whose patterns match without moving forward cannot run for ever.",
  ["inputs", "programs"], "every matcher tree and source",
  "Tests run to completion on fixed inputs only.",
  ["src/matchers/program.rs", "src/matchers/ref.rs"],
  [("assert_moving_forward", "src/matchers/program.rs")],
  ["return of exec"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
