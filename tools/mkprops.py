#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that the wording stays in one place).
import json, os
L="src/lib.rs"
def m(*xs): return [{"name":a,"where":b} for a,b in xs]
def st(*xs): return [{"name":a,"meaning":b,"where":c} for a,b,c in xs]
P=[]
def p(id,title,statement,over,text,why,mech,state=None,files=None,observe=None,hook=None):
    a={"files":files or [L],"mechanism":m(*mech)}
    if state: a["state"]=st(*state)
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Any pull schedule yields exactly the program's items, once, in order",
  "However a caller drives a parser over a valid program - single pulls, bursts, pauses, moving it between threads, switching to `parse()` or `parse_expression()` midway, pulling again after the end - it is handed exactly the program's top-level parts, each once, in source order and with the content the source spells, followed by an end that stays the end. `parse()` returns whatever has not been pulled yet, wrapped as a script or a module according to the configuration. Nothing is lost, repeated, merged, reordered or altered by when or how the pulls happen.",
  ["schedules","programs","histories"],
  "every valid program over the supported grammar x every interleaving of next/parse/parse_expression calls, pauses, thread hand-overs and pulls past the end",
  "Snippet tests call parse() once on 50 or so fixed texts; none mixes pull styles, pulls past the end, resumes on another thread, or compares the sequence for generated programs against an independent model.",
  [("Iterator::next over look_ahead",L+" Iterator::next, next_part"),("one token of lookahead swapped in by next_item",L+" next_item"),("parse collects the rest",L+" parse"),("recursive descent",L+" parse_statement_list_item and below")],
  [("look_ahead","next unconsumed token",L),("past_prolog","directive prologue finished",L),("found_eof","end already seen",L)],
  observe=["Parser::next","Parser::parse","Parser::parse_expression"])

p("C02","Parsers running side by side never affect each other",
  "Any number of parsers may be alive at once, on one thread or many, nested inside each other's comment callbacks, over equal or different texts and configurations, with some of them failing, being abandoned or being dropped midway. Each one hands out exactly the items, comments and error it would have handed out had it run alone, in every interleaving of their steps.",
  ["schedules","histories","fault_sequences"],
  "every set of concurrently live parsers x every interleaving of their internal steps, including re-entrant ones and ones whose neighbours fail",
  "The tests run parsers one after another to completion; two live parsers are never interleaved, so a shared cache, static, thread-local or borrowed buffer would go unseen.",
  [("all parse state is owned by the Parser value",L+" struct Parser, struct Context"),("Builder clones the text",L+" Builder::build")],
  [("context","per-parser grammar state",L),("comment_handler","per-parser callback",L)],
  files=[L,"src/comment_handler.rs"],
  observe=["Parser::next","CommentHandler::handle_comment"])

p("C03","Every comment reaches the handler exactly once, in order, verbatim, in time",
  "For any program, any placement of comments between its tokens and any pull schedule, the comment handler receives each comment exactly once, in source order, with its kind, its verbatim text and its exact byte range, and no later than the yield of the item that contains or follows it. Registering a handler, or having comments at all, never changes which items are yielded.",
  ["schedules","inputs","histories"],
  "every placement of single-line, multi-line and HTML comments x every program and pull schedule, including comments before the first token, after the last, and next to tokens the parser peeks past",
  "One snippet test checks three comments in a fixed file; peeking sites, comments at the ends of the text, comments in line-sensitive places and partial pulls are not sampled.",
  [("next_item forwards comments while skipping them",L+" next_item"),("peeks restore the scanner",L+" at_import_call, at_lexical_decl, at_async_function"),("handler trait","src/comment_handler.rs")],
  [("comment_handler","receives comments",L),("scanner state","must be rewound by peeks so that nothing is skipped or doubled",L)],
  files=[L,"src/comment_handler.rs"],
  observe=["CommentHandler::handle_comment","Parser::next"])

p("C04","How an item is parsed does not depend on the items before it",
  "Once the directive prologue is over, the result of parsing a top-level item - the item produced, or the error it deserves - is the same after any history of preceding complete items as it is in a fresh parser. Entering and leaving functions, generators, async functions, classes, accessors, arrows, loops, switches, labels and templates leaves no trace that changes what is accepted or produced later, at top level or in an enclosing body.",
  ["histories","programs"],
  "every sequence of preceding items x every probe item, with probes chosen so that each piece of remembered grammar state (yield, await, strict, in, return, super, labels, module) would change their outcome",
  "Tests parse each construct in isolation; a context flag that is set and not restored only shows when a later, sensitive construct follows the right earlier one.",
  [("save and restore of each context flag around nested constructs",L+" parse_function_decl, parse_function_expr, parse_class_decl, parse_*_method, parse_for_stmt, parse_yield_expr, parse_switch_stmt, parse_labelled_statement"),("cover grammar save and restore",L+" isolate_cover_grammar, inherit_cover_grammar")],
  [("context","allow_in, allow_yield, await, strict, in_function_body, in_iteration, in_switch, label_set, is_assignment_target, is_binding_element",L)],
  observe=["Parser::next"])

p("C05","A source cut short never corrupts what was complete before the cut",
  "If the text ends early at any byte, every top-level item that was complete before the cut, with the token after it intact, is still yielded unchanged and in order. If the cut leaves a bracket, brace or parenthesis open, the parser reports an error instead of passing the remainder off as a complete program. The parser answers with items, an error and an end, never with a panic or a hang.",
  ["crash_points","inputs"],
  "every program x every byte position at which its text may end",
  "No test truncates input; the end of text can fall in every parser state and the tests reach only the clean one.",
  [("loops test for the closer and fail on EoF",L+" parse_block, parse_class_body, parse_function_source_el, parse_args, parse_obj_init"),("UnexpectedEoF and ParseAfterEoF",L+" next_item"),("expected_token_error at EoF",L)],
  [("found_eof","end already handed out",L)],
  observe=["Parser::next","Builder::build"])

p("C06","Damage in the source never reaches back past the damaged place",
  "When bytes of the source are flipped, dropped, duplicated, swapped or overwritten from some position on, every item that ended before the damage, with the token after it intact, is yielded unchanged and its comments are delivered unchanged. From there on the parser only ever yields further items or one error and then the end, always in bounded steps; it does not panic, hang or abort on any text. Text the parser has not reached yet has no influence on what it has answered so far, whatever that text is.",
  ["fault_sequences","inputs"],
  "every program x every sequence of storage or transport faults on its text",
  "Tests feed well-formed snippets and a handful of fixed invalid ones; the space of damaged texts is unsampled.",
  [("errors are returned, not thrown",L+" Res<T> on every parse_ method"),("strict left to right consumption with one token lookahead",L+" next_item")],
  observe=["Parser::next","CommentHandler::handle_comment"])

p("C07","Every parse ends: bounded pulls, at most one error, and the end is final",
  "For any text, valid or damaged, and any configuration, repeatedly pulling items reaches the end after at most a number of pulls proportional to the number of tokens. At most one error is ever reported, nothing but the end follows it, and once the end has been reported every later pull reports the end again.",
  ["inputs","fault_sequences","schedules"],
  "every text, fault sequence and pull schedule, including pulls after an error and after the end",
  "The tests stop at the first error or the first None, so what the iterator does afterwards is never exercised.",
  [("Iterator::next end conditions",L+" Iterator::next"),("found_eof",L)],
  [("found_eof","set at the end and after an error",L)],
  observe=["Parser::next","Parser::parse"])

p("C08","A builder's latest settings, and only those, decide each parser it makes",
  "A parser built from a builder behaves exactly as one freshly configured with the most recent text, module flag and tolerance set on it, however often and in whatever order and style those were set before. Building takes a snapshot: a builder can be reused and changed afterwards without affecting parsers already made, and building twice gives two independent, identical parsers. Unset options mean script, intolerant, empty text, with or without a comment handler.",
  ["histories","configurations"],
  "every sequence of setter calls, builds and pulls over any number of builders and live parsers",
  "Tests configure a builder once, build once and drop it; ordering, overwriting, reuse and later mutation are not covered.",
  [("setters store, build clones",L+" impl Builder"),("Parser::build wires config and context",L+" Parser::build, _new")],
  [("Builder","tolerant, is_module, js registers",L)],
  observe=["Builder::build","Builder::with_comment_handler","Parser::parse"])

p("C09","Tolerance only ever turns failures into progress",
  "For any text, however damaged, the items a tolerant parser yields begin with exactly the items an intolerant one yields, and it never fails earlier in the text than the intolerant one. On undamaged programs the two behave identically, and where the damage is one of the tolerated kinds - a missing comma in a call or object, a getter with parameters, a setter without exactly one, `with` or deleting a name in a class body - the tolerant parser yields the complete intended item while the intolerant one reports an error.",
  ["fault_sequences","configurations","inputs"],
  "every program x every fault sequence, run under both settings of the tolerance option",
  "Hardly any test turns tolerance on, and none compares the two settings on the same damaged input.",
  [("config.tolerant branches",L+" tolerate_error, expect_comma_sep, parse_with_stmt and others"),],
  [("config.tolerant","the option",L)],
  observe=["Parser::next"])

p("C10","An error names the true place of the fault",
  "When a valid program is damaged by a closing bracket that matches nothing, or by ending too early, the reported error carries the line and column of the exact token that cannot be accepted, whatever precedes it: multi-byte text, any mix of line ending styles, comments, multi-line strings and templates. Lines count from 1, columns are byte offsets from the start of the line from 0, and the displayed message shows the same position.",
  ["fault_sequences","inputs"],
  "every program and layout x every place a foreign closing bracket can strike",
  "Tests check one position in a three-line ASCII text and never check the position carried by an error for generated placements or line endings.",
  [("line table",L+" get_lines, get_item_position"),("error constructors take the offending item",L+" expected_token_error, unexpected_token_error"),("display","src/error.rs Display")],
  [("lines","start and end of each line",L),("look_ahead_position","running position",L)],
  files=[L,"src/error.rs"],
  observe=["Parser::next"])

p("C11","A crash inside a callback stays contained",
  "If the caller's comment handler or log sink panics at any point during a parse, the panic reaches the caller with its own payload, items already handed out stay valid, and no other parser - live, nested or created later, on this thread or another - behaves differently because of it. The interrupted parser can be dropped, or pulled again: it then keeps terminating in bounded steps.",
  ["crash_points","schedules","histories"],
  "every point at which a callback can unwind through the parser x every program and set of neighbouring parsers",
  "No test makes a handler or logger fail.",
  [("no global or shared mutable state",L+" struct Parser"),("handler is called with no state half-moved",L+" next_item")],
  files=[L,"src/comment_handler.rs"],
  observe=["Parser::next","CommentHandler::handle_comment"])

p("C12","The result depends on the text and configuration alone",
  "Everything a parser yields - items, comments, error kind, message and position - is a function of the text and the configuration. The process's hash seeds, the time, the thread and its stack position, the state of the heap, the log level and its changes during the parse, whether log lines are formatted, and earlier parses in the process have no influence.",
  ["configurations","schedules","histories"],
  "every program (valid or damaged) x every environment history",
  "A test run sees one environment: one log level, one hash seed draw, one thread layout; dependence on any of them would pass or flake.",
  [("label_set is used for membership only",L+" parse_labelled_statement"),("logging has no side effects",L+" debug! and trace! calls"),("backtraces are only logged",L+" expected_token_error")],
  [("label_set","HashSet with random hash keys",L)],
  observe=["Parser::next"])

p("C13","Work and memory stay proportional to the text",
  "For any text and pull schedule, the number of tokenizer steps the parser performs stays within a small constant factor of the number of tokens in the text, and the memory it holds between pulls stays within a constant factor of the size of the text, plus what has been handed out and is still kept by the caller; what one pull needs in passing stays within a constant factor of the text and of the item it returns, and all the memory asked for over a whole text, given back or not, grows only in proportion to its tokens and its length. Work is done on demand: constructing a parser or pulling one item never scans tokens beyond the item and its immediate lookahead.",
  ["inputs","schedules"],
  "every program, damaged text and pull schedule",
  "Tests measure nothing; a construct that rescans, or a pull that reads ahead to the end, gives the same tree.",
  [("single pass with bounded lookahead",L+" next_item, at_lexical_decl, at_import_call, at_async_function")],
  observe=["scanner steps as logged by the tokenizer","allocator"])

p("C14","An abandoned parser gives everything back",
  "Whenever a parser is dropped - unused, midway, after the end, after an error, or after a callback panicked - together with what it yielded, all memory it obtained is returned and its comment handler is dropped exactly once, not before the parser itself. Repeating any parse history any number of times does not grow the process.",
  ["crash_points","histories","schedules"],
  "every program x every point at which the caller walks away",
  "No test looks at resources; leaks are invisible to assertions on trees.",
  [("ownership",L+" struct Parser owns text, context and handler")],
  files=[L,"src/comment_handler.rs"],
  observe=["global allocator","Drop of the handler"])

p("C15","Yielded items account for the source, token by token",
  "Reading the names, literals, template pieces and operators-by-kind stored in the yielded items from left to right gives back exactly those of the source text the items cover, with the same spelling and in the same order: nothing the source says is silently dropped, invented, respelled or swapped, for any accepted text including ones that only became acceptable through damage. A text that an intolerant parser accepts to its end has a partner for every bracket, brace, parenthesis and template substitution. A tolerated or skipped token is the only exception.",
  ["inputs","fault_sequences","programs"],
  "every accepted text, generated or damaged, against an independent tokenization of the same text",
  "Tests compare a few fixed trees; acceptance of damaged text with content silently lost is not sampled at all.",
  [("each parse_ method stores what it consumes",L),("get_string and string_for copy the source",L+" get_string")],
  observe=["Parser::next"])

p("C16","Layout is noise: items do not change with spacing, line endings or comments",
  "Inserting, removing or changing white space, line terminators of any kind, comments and redundant or omittable semicolons, wherever the language allows it, leaves the yielded items the same. Where a line terminator does carry meaning - automatic semicolons, restricted productions - it has that meaning regardless of its style and of whether it stands in white space or in a comment. This goes for any text: filling its gaps in another way that keeps where the line terminators are keeps the items, and the error, if there is one, stays an error of the same kind about the same token.",
  ["inputs","fault_sequences"],
  "every program x every legal re-layout of it injected between tokens",
  "Snippets are laid out one way each; newline handling around comments and peeked tokens is not exercised.",
  [("has_line_term from the scanner",L+" next_item"),("consume_semicolon",L),("peeks restore line state",L+" at_lexical_decl, at_import_call, at_async_function")],
  [("has_line_term","line terminator before the next token",L)],
  observe=["Parser::next"])

p("C17","Every valid ES2019 program is accepted with the right tree",
  "Every program the language standard calls valid is accepted and its tree follows the standard's grammar.",
  ["programs"],"all valid programs","The snippets sample a small part of the grammar.",
  [("recursive descent",L)])
p("C18","Every invalid program is rejected",
  "Every text the language standard rejects, including by early errors and strict mode rules, is rejected.",
  ["programs"],"all invalid programs","A few fixed invalid snippets only.",
  [("error returns",L)])
p("C19","Nesting depth does not exhaust the stack",
  "Nesting of any depth is parsed or rejected without overflowing the caller's stack.",
  ["inputs"],"all nesting depths","No deep test.",
  [("recursion",L)])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
