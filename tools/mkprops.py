#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (kept in one place so that ids, titles and statements stay in step)."""
import json, os
L="lumberjack/src/"
def P(id,title,stmt,over,qtext,why,files,mech,state=(),observe=()):
    return {"id":id,"title":title,"statement":stmt,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
      "anchors":{"files":[f if f.startswith("lumberjack") else L+f for f in files],
        "state":[dict(name=n,meaning=m,where=w) for n,m,w in state],
        "mechanism":[dict(name=n,where=w) for n,w in mech],
        "observe_at":list(observe),"hook_needed":None}}
props=[
P("C01","Edits keep the tree a well-formed constituency tree",
 "After any sequence of edits through the public tree API, starting from a well-formed tree, the result is a single rooted tree: exactly one node (the reported root) has no primary parent, every other node has exactly one, and every node is dominated by the root without cycles. Terminals never have children, every nonterminal dominates at least one terminal, and the terminals occupy the sentence positions 0..n-1 exactly once, with n equal to the reported number of terminals.",
 ["histories","inputs"],"every finite history of edit calls (terminal and nonterminal insertion, removal, moving, reattachment, secondary edges, projectivisation, collapse/restore, filtering, bulk insertion and reattachment) on every well-formed tree",
 "Unit tests run a handful of one- to three-call histories on two or three small, mostly projective trees and compare rendered strings; the guarantee is about every history, including those that mix discontinuity, node-id reuse and rejected calls.",
 ["tree.rs","tree_modification.rs","io/encode.rs"],
 [("edit methods","Tree::{insert_terminal,push_terminal,move_terminal,insert_unary_above,insert_unary_below,remove_node,reattach_node}"),("bulk edits","TreeOps, UnaryChains, Projectivize, Decode for Tree")],
 [("graph","nodes, primary and secondary edges","Tree.graph"),("root","root index","Tree.root"),("n_terminals","sentence length","Tree.n_terminals")],
 ["Tree::graph()","Tree::root()","Tree::n_terminals()"]),
P("C02","Spans and projectivity always equal what the structure implies",
 "After any sequence of edits and after reading from any format, the span reported for every node covers exactly the positions of the terminals it dominates (bounds are the smallest and largest position, skipped indices are exactly the gaps). A node is reported as discontinuous iff that set of positions has a gap, and a tree is reported as projective iff no node is discontinuous.",
 ["histories","inputs"],"every node of every tree reachable by any finite edit history, in particular discontinuous trees and repeated removals and reattachments",
 "Spans and the discontinuity counter are maintained incrementally by every edit; tests look at spans after single edits of mostly continuous trees, so drift that needs two or three edits, or a discontinuous subtree, stays invisible.",
 ["tree.rs","node.rs","span.rs","tree_modification.rs"],
 [("incremental span maintenance","Tree::reattach_primary, Tree::reset_nt_spans, Tree::compact_terminal_spans, NonTerminal::{merge_spans,remove_indices}"),("discontinuity counter","Tree::projectivity_change")],
 [("span","cached coverage of a node","Terminal.span, NonTerminal.span"),("num_discontinuous","cached counter behind is_projective","Tree.num_discontinuous")],
 ["Node::span()","Node::continuity()","Tree::is_projective()"]),
P("C03","Rejected edits are exactly the documented ones and change nothing",
 "An edit that would break the tree is rejected with an error exactly when its documentation says so: removing the last node of a branch or a branching root, reattaching the last child of another node, reattaching below a terminal, below the node itself or below its own descendant, inserting a node below a terminal, or appending a token when the root is a terminal. A rejected edit leaves the tree exactly as it was, and removing something that is not a secondary edge as a secondary edge yields nothing and changes nothing.",
 ["inputs","histories"],"every edit call with every existing node or edge as argument, on every reachable tree",
 "Tests try a few rejections on one tree each; they cannot enumerate all node/edge argument combinations nor compare the whole state before and after each rejection.",
 ["tree.rs"],[("guards","Tree::{remove_terminal,remove_nonterminal,reattach_node,reattach_primary,insert_unary_below,push_terminal,remove_secondary_edge}")],
 (),["Result of the edit call","full tree state after it"]),
P("C04","Terminal edits edit the sentence like a list and touch nothing else",
 "Appending, inserting, moving or removing a token changes the sentence exactly like the corresponding list operation: all other tokens keep their relative order, form, tag, lemma, features and parent, and positions are renumbered without gaps. An inserted token hangs below the given parent (an appended one below the root), a moved one keeps its parent, and the nonterminals and their hierarchy, labels and features are untouched.",
 ["histories","inputs"],"every tree, token and target position (first, last, before and after the current position), and every sequence of such edits",
 "Position shifting has four boundary cases per direction; tests sample a few positions in one sentence.",
 ["tree.rs"],[("index shifting","Tree::{move_terminal,insert_terminal,push_terminal,remove_terminal,compact_terminal_spans}")],
 [("position","linear position of a token","Terminal.span")],["Tree::terminals()","Terminal::idx()"]),
P("C05","Structural edits change exactly the edges they name",
 "Inserting a unary node above or below a node, removing a nonterminal, reattaching a node, and adding, removing or reattaching a secondary edge have exactly their documented effect on dominance and on edges, with every other node, label, feature, edge, edge label and the order of the sentence unchanged. Inserting above the root makes the new node the root, removing a nonterminal hands its children to its parent (or makes the only child of the root the new root), and calls return the new node or edge, or the removed one.",
 ["inputs","histories"],"every tree and every node and edge argument for which the edit is accepted, including discontinuous trees, unary chains, roots and trees with secondary edges",
 "Each test checks one position in one tree by comparing strings that show neither edge labels, features nor secondary edges.",
 ["tree.rs"],[("structural edits","Tree::{insert_unary_above,insert_unary_below,remove_nonterminal,reattach_node,reattach_primary,reattach_secondary,add_secondary_edge,remove_secondary_edge}")],
 (),["Tree::graph()"]),
P("C06","Projectivisation removes all discontinuity and only that",
 "Projectivising a discontinuous tree always terminates with a tree without discontinuous nodes that has the same nodes, labels, features and sentence, every moved constituent keeping its edge label; a tree without discontinuity is reported as such and left unchanged. Each step detaches a constituent that fills a gap from the lowest node that dominates both it and the interrupted node, and attaches it to the interrupted node, working bottom-up. The returned list names, step by step, exactly the old parent, the edge and the constituent of each move.",
 ["inputs"],"every discontinuous tree: nested, crossing and multi-gap discontinuities and every node numbering and child order",
 "The tests projectivise a few fixed trees and compare the rendered bracketing; the set of discontinuity patterns is unbounded, the order of gaps is hash-dependent and the returned list is not examined for larger trees.",
 ["tree_modification.rs","tree.rs","span.rs"],[("projectivisation loop","Projectivize for Tree"),("span update","Tree::reattach_node")],(),["returned list of moves","Tree::graph()"]),
P("C07","Collapsing unary chains is undone by restoring them",
 "Collapsing unary chains removes exactly the nonterminals with a single child, records their labels bottom-up on the remaining node, and leaves the sentence and all branching structure unchanged. Restoring afterwards yields the original tree up to edge labels and annotations of the collapsed nodes, for every delimiter that occurs in no label.",
 ["inputs"],"every tree (chains above tokens, above branching nodes and up to the root, discontinuous nodes, whole-tree chains) and every non-empty delimiter that does not occur in labels",
 "Tests cover a few chain positions with one delimiter on projective trees with default node numbering.",
 ["tree_modification.rs"],[("unary chain folding","UnaryChains for Tree")],
 [("unary_chain","labels of the removed chain","Features of the lowest node")],["Features under unary_chain","Tree::graph()"]),
P("C08","Tag-sequence encodings are lossless and agree with each other",
 "For every continuous tree whose unary chains were collapsed, the absolute encoding gives for each token the label and depth of the lowest constituent shared with the next token, the relative encoding gives the same with depths as differences, and both convert into each other without change. Decoding the encoding together with the tokens and restoring chains gives back a tree with the same structure, labels and tokens, for labels free of the characters the tags are made with ('_', '~', '+'; in features also '|' and the mark NONE); annotating writes the same information as features, and discontinuous trees are rejected.",
 ["inputs"],"every continuous tree without collapsed-label delimiters in its labels, of any branching, depth and size, with or without chains on tokens and nodes",
 "The round-trip test runs over 500 treebank sentences of one style and compares only strings and library equality; small structural corner cases (all shapes up to a size) and agreement of the four representations are not enumerated.",
 ["io/encode.rs","tree_modification.rs"],[("encode","Encode for Tree, get_common"),("decode","Decode for Tree"),("conversion","AbsoluteEncoding::try_from_relative, From<AbsoluteEncoding> for RelativeEncoding")],
 (),["AbsoluteEncoding","RelativeEncoding","features abs_ancestor and rel_ancestor"]),
P("C09","Any predicted tag sequence decodes to a well-formed tree",
 "Decoding any sequence of ancestor tags of moderate depth for a non-empty sentence terminates without crashing and yields a well-formed tree with exactly the given tokens in order; if every non-final tag is present and at least one, neighbouring tokens share exactly as many ancestors as their tag says. Relative sequences whose depth becomes non-positive are reported as fixable and the fix replaces exactly those depths by two; tags that cannot be parsed are errors, all others give the label and depth they name and print them again. Removing placeholder nodes leaves no placeholder except possibly a branching root and keeps all other nodes and dominance relations.",
 ["inputs"],"every sequence of absolute or relative ancestor tags (absent, zero, negative, jumping, contradictory, with or without chains), for every sentence length",
 "Labels come from statistical taggers and need not describe a tree; the tests feed three hand-written malformed sequences.",
 ["io/encode.rs","io/conllx.rs"],[("decode","Decode::decode, Decode::remove_dummy_nodes"),("fix","RelativeToAbsoluteError::fix"),("tag parser","TryFrom<&str> for AbsoluteAncestor, RelativeAncestor")],
 (),["Tree::decode","Tree::try_from_conllx_with_*_encoding"]),
P("C10","Filtering removes exactly the unmatched nonterminals",
 "Filtering nonterminals with any predicate on nodes removes exactly the non-root nonterminals for which the predicate is false. The root and all other nonterminals and tokens remain with labels and features, dominance among the remaining nodes is unchanged, each orphan hangs below its closest remaining ancestor, and the sentence is unchanged.",
 ["inputs"],"every tree and every subset of nonterminals to keep",
 "Two fixed predicates on one tree are tested; the claim ranges over all subsets and shapes, including chains and discontinuous nodes.",
 ["tree_modification.rs","tree.rs"],[("filter","TreeOps::filter_nonterminals"),("removal","Tree::remove_nonterminal")],(),["Tree::graph()"]),
P("C11","Bulk insertion groups maximal runs of neighbouring tokens once",
 "Inserting intermediate nodes adds, below every nonterminal selected by the predicate, one new node with the chosen label above each maximal run of sentence-adjacent tokens among its direct token children, and nothing else. Tokens below unselected parents, nonterminal children, dominance between existing nodes and the sentence are unchanged; a tree consisting of one token is rejected.",
 ["inputs"],"every tree, node numbering and assignment of labels to selected parents, including labels that the predicate selects again",
 "One tree whose node numbering equals the sentence order is tested; the grouping must not depend on numbering, gaps or adjacency at the edges of the sentence.",
 ["tree_modification.rs"],[("run grouping","TreeOps::insert_intermediate")],(),["Tree::graph()"]),
P("C12","Bulk reattachment moves exactly the selected tokens",
 "Reattaching tokens to an attachment node makes every selected token a direct child of it and leaves all other tokens below their parents. Exactly those nonterminals disappear that neither dominate an unselected token nor the attachment node nor are the attachment node or the root, and dominance among the others, the sentence, labels and features are unchanged; the operation always terminates.",
 ["inputs"],"every tree, every attachment nonterminal (root or inner, inside or outside emptied branches) and every subset of tokens",
 "One subset on one tree is tested, attached to the root; emptied chains, the attachment's own tokens and inner attachments are not.",
 ["tree_modification.rs"],[("reattachment with pruning","TreeOps::reattach_terminals")],(),["Tree::graph()"]),
P("C13","Projections annotate each token from its closest matching ancestor",
 "Projecting labels, unique ids or node indices onto tokens gives every token the label, id or index of its closest matching ancestor; tokens without one get no feature (or the root's index), and ids are consecutive from zero, equal exactly for tokens with the same ancestor. Annotating parent tags gives each token its parent's label (an error if there is no parent), annotating tags assigns them in sentence order and fails iff the counts differ, and visiting ancestors goes bottom-up and stops where told. None of these changes the structure, the sentence or any other annotation.",
 ["inputs"],"every tree, node numbering and node predicate, and every list of tags",
 "Tests use projective trees whose node numbering equals the sentence order, with one predicate each.",
 ["tree.rs","tree_modification.rs","util.rs"],[("climbing","Climber, Tree::map_climber_path"),("projections","Tree::{project_tag_set,project_ids,project_nt_indices}, TreeOps::annotate_parent_tag, AnnotatePOS")],(),["Features","returned indices"]),
P("C14","Bracketed output reads back as the same tree",
 "Writing a continuous tree in the simple, PTB or TüBa bracket format and reading it back gives the same sentence, structure, node labels, tags and forms, plus annotations (PTB) or annotations and edge labels (TüBa), for all labels and tokens expressible in the format; parentheses in tokens and tags are written as LBR/RBR. Children are written in sentence order regardless of node numbering, reading canonical text and writing it again reproduces it, and discontinuous trees are rejected.",
 ["inputs","configurations"],"every continuous tree, all three formats, labels and forms with the formats' special characters at admissible places, non-ASCII text",
 "Round trips run on TüBa-style treebank data; PTB annotations, dashes, missing edges and renumbered nodes are barely sampled.",
 ["io/ptb.rs","io/ptb.pest"],[("writer","PTBFormat::tree_to_string"),("reader","PTBFormat::string_to_tree, PTBFormat::process_label")],(),["written string","tree read back"]),
P("C15","Bracket readers deliver every tree, in order, or an error",
 "Reading a stream of bracketed trees, one per line or spread over lines, yields in order exactly one tree per complete bracketing with the tokens, labels and structure written there, skipping comment lines (and blank lines in multi-line mode). Anything that is not a complete bracketing, including surplus or missing parentheses and truncated input, yields an error at its place; no input makes the reader crash, hang or silently drop material, and trees after an error are still delivered.",
 ["inputs"],"every finite text: any mix of well-formed trees, comments, blank lines, arbitrary line breaks and malformed or truncated brackets",
 "Tests read one multi-line file and one well-formed file; malformed streams, resynchronisation and line-break placement are untested.",
 ["io/ptb.rs","io/ptb.pest"],[("stream reader","Iterator for PTBReader, count_pars"),("grammar","ptb.pest")],(),["items of PTBReader"]),
P("C16","NEGRA output reads back as the same tree",
 "Writing any tree rooted in a nonterminal in NEGRA export format and reading it back gives the same sentence (form, lemma, tag, morphology), the same possibly discontinuous structure with labels, annotations and edge labels, all secondary edges with labels, and the sentence's id and metadata, for all values expressible in the format; only the root's own label, which the format cannot express, is replaced by the virtual root. The text has the layout of the format: tokens first, then nonterminals under numbers from 500, '--' in unused columns. Trees the format cannot represent are rejected with an error, and several trees written to one stream are read back in order with consecutive ids where none were given.",
 ["inputs"],"every tree with a nonterminal root, any discontinuity, chain depth, node numbering, any number of secondary edges, field widths beyond the column layout, non-ASCII text",
 "Round trips run on treebank files that lack multiple or labelled secondary edges, long fields, unusual ids and edited (renumbered) trees.",
 ["io/negra.rs"],[("writer","WriteTree for NegraWriter"),("reader","NegraReader, Builder")],(),["written text","tree read back"]),
P("C17","The NEGRA reader yields only well-formed trees, or errors",
 "Reading any text as NEGRA export yields, sentence by sentence and in order, either an error or a well-formed tree with exactly the content stated between begin and end marker, whatever the order and numbering of its nonterminal lines; lines between sentences are ignored. Missing, duplicate, cyclic or detached nonterminals, unknown secondary parents, empty sentences, mismatched ids, missing fields, nested or unclosed sentences and truncated input are errors, never crashes or silently altered trees, and sentences after the end of a malformed one are read normally.",
 ["inputs"],"every finite text, in particular every single- and double-fault mutation of valid sentences and streams mixing valid and invalid sentences",
 "A dozen hand-written malformed sentences are tested; the reader is a line-driven state machine with an unbounded input space.",
 ["io/negra.rs"],[("line-driven reader","Iterator for NegraReader, Builder::{from_header,process_line,try_into_tree}")],(),["items of NegraReader"]),
P("C18","CONLL-X conversion carries every token over faithfully",
 "Converting a tree to a CONLL-X sentence, borrowing or consuming, yields one token per terminal in sentence order with the same form, lemma, tag and features, and absent or empty annotation stays absent so that the written text reads back as the same sentence, for values free of the separators of the format. Sentences annotated with absolute or relative tags convert back into a tree with the original structure, labels, forms and tags; sentences without tokens or with missing or unparsable tags are errors.",
 ["inputs","histories"],"every tree (any node numbering, discontinuous or not, after any edit history) and every annotated sentence",
 "Tests convert trees whose numbering equals the sentence order and that have uniform annotations.",
 ["io/conllx.rs"],[("conversion","From<Tree> and From<&Tree> for Sentence, From<&Terminal> for Token, TryFromConllx for Tree")],(),["conllx Sentence","written CONLL-X text"]),
P("C19","Tree equality means equal content, not equal numbering",
 "Two trees without secondary edges compare equal iff they have the same sentence (forms, tags, lemmas, features) and the same structure with the same node labels, features and edge labels, where absent and empty features count as the same. Equality does not depend on the order in which nodes or edges were created, is reflexive and symmetric, and detects every single difference in that content, including at the root.",
 ["inputs","histories"],"every pair of trees, in particular the same tree built through different histories and pairs that differ in one place",
 "Tests use equality as their oracle and compare equal trees; its own false positives and its dependence on numbering are not tested.",
 ["tree.rs","node.rs","edge.rs"],[("recursive comparison","PartialEq for Tree, subtree_eq, Tree::sort_indices"),("node comparison","PartialEq for Terminal, NonTerminal, Edge")],(),["=="]),
P("C20","The conversion tool applies the requested steps in a fixed order",
 "For every combination of options the conversion tool reads every tree of its input and, for each, applies exactly the requested steps in this order: placeholder removal, projectivisation (with moved edges kept as secondary edges labelled np or np_LABEL if requested), tag annotation from a CONLL-X file, reattachment of tokens by tag prefix to the root, id projection, filtering, insertion, parent annotation, and for tag-encoded output collapsing and encoding. It writes one result per input tree in the chosen format, in input order, and fails with a non-zero status instead of writing a wrong tree when a tree cannot be read, processed or written.",
 ["configurations","inputs"],"every combination of input format, output format and option set, on every stream of trees expressible in the input format",
 "The existing end-to-end test runs a single option set (NEGRA to TüBa with projectivisation) on one file.",
 ["lumberjack-utils/src/bin/lumberjack-conversion.rs"],[("pipeline","main"),("format dispatch","get_reader, get_writer"),("label sets","get_set_from_file, LabelSet::matches")],(),["output file","exit status"]),
P("C21","Span queries answer as the set of positions they denote",
 "Every span obtained from a tree answers containment of a position, coverage of another span, number of positions, bounds, skipped positions, continuity and iteration (ascending, each position once) as the set of positions it denotes. Its order compares first position, then last position, then number of positions.",
 ["inputs"],"every pair of non-empty sets of positions realisable as spans, and every position inside and outside of them",
 "Tests query a few spans at a few positions; the queries drive reattachment, encoding and projectivisation for all sets.",
 ["span.rs"],[("span queries","Span::{contains,covers_span,n_indices,bounds,skips}, Ord for Span, IntoIterator for &Span, SpanIter"),("span algebra","Span::{from_vec,merge_spans,remove_indices}")],(),["Node::span()"]),
P("C22","Features behave as an ordered map with a lossless text form",
 "A feature set behaves as a map from names to optional values under any sequence of insertions, removals and lookups, returning the replaced or removed value. Its text form lists the entries sorted by name as name or name:value joined by a bar, and parsing that text gives the same map for all names and values free of the separators (values may contain colons); when a name is repeated in parsed text the last entry wins and empty entries are ignored.",
 ["histories","inputs"],"every sequence of map operations and every text",
 "One map with three entries is tested.",
 ["features.rs"],[("map operations","Features::{insert,remove,get_val}"),("text form","From<S> for Features, ToString for Features")],(),["return values","to_string()"]),
P("C23","Navigation queries agree with each other and with the structure",
 "In every reachable tree, parent, children, siblings, sibling test, secondary parents and children, terminals, nonterminals, terminal descendants and upward climbing answer exactly according to the primary and secondary edges of the tree. Secondary edges never influence primary navigation, each related node is reported exactly once, and climbing visits the ancestors from parent to root.",
 ["histories","inputs"],"every node and pair of nodes of every tree reachable by any edit history, including trees with secondary edges between arbitrary nodes",
 "Navigation is only exercised indirectly on small trees without secondary edges; the sibling test of two distinct siblings was never run.",
 ["tree.rs","util.rs"],[("edge filters","Tree::{parent,children,siblings,are_siblings,secondary_parent,secondary_children,descendent_terminals,terminals,nonterminals}"),("climber","Climber::{next,next_with_edge}")],(),["query results"]),
P("C24","Node and edge content reads back as written; label sets answer membership",
 "Labels, forms, lemmas, features and edge labels read back exactly what was last written to them through any accessor, every setter returns the replaced value, and writing one of them changes no other content, no structure and no span. Generic and kind-specific accessors of a node agree: a node is a terminal or a nonterminal, never both, and both views show the same label, features and span. New nodes and edges hold exactly what they were made with; the text of a token is its tag and form, of a nonterminal its label, of an edge its label or '--'. A positive label set matches exactly its members, a negative one exactly all other labels.",
 ["histories","inputs"],"every node and edge of every tree and every sequence of writes, including absent and empty values",
 "Accessors are exercised once on one terminal and one nonterminal.",
 ["node.rs","edge.rs","util.rs"],[("accessors","Node::{label,set_label,features,features_mut,set_features,span,terminal,nonterminal,is_terminal}, Terminal::{set_form,set_lemma,idx}, Edge::{label,set_label}"),("label sets","LabelSet::matches")],(),["accessors","return values of setters"]),
P("C25","Results depend on the tree, not on numbering, child order or the run",
 "What is written for a tree (bracketings, NEGRA blocks, CONLL-X text), its tag encodings and annotations, the annotations left by collapsing, and the answer whether it is projective depend only on its content: two trees with the same structure, labels, features, edge labels, secondary edges and sentence give the same text, however they were built and numbered. Repeating an operation on the same tree - projectivisation, id projection, insertion, decoding, writing - gives the same tree and the same text, and running the conversion tool again with the same input and options writes the same bytes.",
 ["inputs","configurations"],"every pair of equal trees built along different routes, every repetition in the same process and in another one (hash seeds), every tool invocation",
 "Tests build each tree one way and run each operation once; hash seeds and node numbering do not vary within a test, and a text that differs between runs still reads back as the same tree.",
 ["tree_modification.rs","io/negra.rs","io/ptb.rs","io/conllx.rs","features.rs"],[("order of nodes","Tree::sort_indices"),("numbering of nonterminals","WriteTree for NegraWriter"),("order of gaps","Projectivize for Tree"),("order of features","ToString for Features")],(),["written text","encodings","Tree::graph()"]),
]
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in props: f.write(json.dumps(p,ensure_ascii=False)+"\n")
if __name__=="__main__":
    import jsonschema
    sch=json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in props: jsonschema.validate(p,sch); assert len(p["title"])<=80
    print(len(props),"properties")
