//! What each check's evidence says about itself.
pub struct About {
    pub rule: &'static str,
    pub inter: &'static str,
    pub stub: &'static str,
    pub assume: &'static [&'static str],
}
const DRAWN: &str = "a hash of the drawn operations, fault places and configuration, without the texts";
const MODEL: &str = "the generator's model of the documents it writes (texts, AST, comments, positions) is right: it was compared with the parser on large numbers of documents, and each difference settled by the language";
const SEAM: &str = "the parser's interleaving points are its log calls: between two of them a thread is not switched and no panic is injected";
const TOK: &str = "the ress tokenizer of the cargo cache is given, its panics on text it cannot read are recorded findings";
const STUB: &str = "the log sink, the comment handler, the operation schedule";
pub const NAMES: &[(&str, About)] = &[
    ("C01", About { rule: "A valid document of up to seven items and a drawn schedule of next, parse, parse_expression-free peeks, moves, takes, folds and drops; non-trivial: two items or more and an operation other than next.", inter: DRAWN, stub: STUB, assume: &[MODEL] }),
    ("C02", About { rule: "Two to four parsers over valid and damaged documents, run as threads under the baton scheduler, by interleaved pulls, or one inside another's comment callback; non-trivial: control went back and forth at least twice.", inter: "the sequence of switches: who, to whom, at which step", stub: "the log sink (which is the scheduler), the comment handler, the OS thread scheduler (one simulated thread runs at a time)", assume: &[MODEL, SEAM] }),
    ("C03", About { rule: "A valid document with comments strewn between its tokens; non-trivial: two comments or more.", inter: DRAWN, stub: STUB, assume: &[MODEL] }),
    ("C04", About { rule: "An item that is wrapped and preceded by a drawn history of items, against the same item alone; non-trivial: the history is more than an empty statement.", inter: DRAWN, stub: STUB, assume: &[MODEL] }),
    ("C05", About { rule: "A valid document cut at a drawn byte; non-trivial: something is cut off and something is left.", inter: DRAWN, stub: STUB, assume: &[MODEL, TOK] }),
    ("C06", About { rule: "A valid document with one to three injuries (dropped, doubled, swapped, overwritten, inserted text); non-trivial: the text changed and is not empty.", inter: DRAWN, stub: STUB, assume: &[MODEL, TOK] }),
    ("C07", About { rule: "Damaged documents and token soup, pulled to the end and beyond; non-trivial: at least three tokens.", inter: DRAWN, stub: STUB, assume: &[TOK] }),
    ("C08", About { rule: "A drawn schedule of set, build, pull and drop over one builder and up to eight parsers built from it; non-trivial: two parsers or more were built.", inter: DRAWN, stub: STUB, assume: &[MODEL] }),
    ("C09", About { rule: "A document, damaged, valid, or with a forgivable fault put in, read strictly and tolerantly; non-trivial: more than four bytes.", inter: DRAWN, stub: STUB, assume: &[MODEL, TOK] }),
    ("C10", About { rule: "A valid document with one token that cannot stand where it is; non-trivial: it is not the first.", inter: DRAWN, stub: STUB, assume: &[MODEL] }),
    ("C11", About { rule: "Parsers side by side and in turn whose comment handler or log sink panics at drawn steps; non-trivial: a panic fired.", inter: "the sequence of switches: who, to whom, at which step", stub: "the log sink (scheduler and source of panics), the comment handler (a source of panics), the OS thread scheduler", assume: &[MODEL, SEAM] }),
    ("C12", About { rule: "A document read twice, the second time in a drawn environment; non-trivial: more than four bytes.", inter: DRAWN, stub: "the log sink, the comment handler, getrandom, clock_gettime (shifted), getenv (any variable has the simulated value), getpid, open64 (fails), the allocator's contents and placement", assume: &["the network and the contents of files are not read (nothing in the code opens any but the executable, for the symbols of its backtraces)"] }),
    ("C13", About { rule: "A valid, damaged or repeated document pulled item by item with the tokenizer steps and the memory counted after every pull; non-trivial: more than ten tokens.", inter: DRAWN, stub: STUB, assume: &[MODEL, TOK, "tokenizer steps are counted by the tokenizer's own log calls"] }),
    ("C14", About { rule: "A document read several times over with drops, panics and abandoned pulls, counting live bytes; non-trivial: more than four bytes.", inter: DRAWN, stub: "the log sink, the comment handler (counts its drops), the allocator (counts bytes)", assume: &[TOK] }),
    ("C15", About { rule: "Damaged documents and token soup; non-trivial: the parser gave an item made of more than three tokens.", inter: DRAWN, stub: STUB, assume: &["the list of tokens an AST may leave out (punctuation, keywords that a node stands for) is right", TOK] }),
    ("C16", About { rule: "One document in several layouts (spaces, line ends, comments, semicolons left out), or one text where a line end has meaning; every run is non-trivial.", inter: DRAWN, stub: STUB, assume: &[MODEL] }),
];
