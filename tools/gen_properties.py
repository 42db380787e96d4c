#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line) from the table below."""
import json, os
P = []
def prop(id, title, statement, over, quant, why, files, mechanism, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=quant), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mechanism],
                     observe_at=observe, hook_needed=hook)))
F='src/model/fragment.rs'; N='src/model/node.rs'; R='src/model/resolved_pos.rs'; RP='src/model/replace.rs'
MK='src/model/marks.rs'; SC='src/model/schema.rs'; U='src/model/util.rs'; CT='src/model/content.rs'
ST='src/transform/step.rs'; MS='src/transform/mark_step.rs'; RS='src/transform/replace_step.rs'; TM='src/transform/mod.rs'; SP='src/transform/util.rs'
MM='src/markdown/mod.rs'; MA='src/markdown/attrs.rs'; MC='src/markdown/content.rs'; MSc='src/markdown/schema.rs'; FM='src/markdown/from_markdown.rs'; TO='src/markdown/to_markdown.rs'; DE='src/de.rs'

prop('C01','Resolving a position reports its true context',
 'Resolving a position in a document succeeds exactly when the position lies between 0 and the size of the document\'s content and not inside a single character that takes two UTF-16 units; every other position gives an error. The resolved position reports the ancestors, child indices, start/end/before/after offsets, text offset, adjacent nodes (cut at the position when it is inside text) and the depth shared with any other position exactly as counting the document\'s tokens one by one gives them.',
 ['inputs'],'every document tree (any nesting, any text including characters outside the BMP, empty nodes, leaves) and every position, inside and outside the document',
 'One unit test walks the 13 positions of one small document with ASCII text; depth, unusual text, empty nodes, leaves and out-of-range positions are not reached.',
 [R,F,N,U],[('walk down from the root, finding the child index at each level',R+':resolve'),('offset to child index search',F+':find_index'),('derived accessors start/end/before/after/index_after/node_before/node_after/shared_depth',R)],
 ['Node::resolve','ResolvedPos accessors'])
prop('C02','Reported sizes always equal the token count',
 'However a text, node or fragment was produced (constructed, deserialised, cut, appended, child-replaced, sliced, edited by a step, imported from Markdown), its reported size is the number of its tokens: UTF-16 code units for text, one for any other leaf, content size plus two for any other node. A fragment\'s size is the sum of its children\'s sizes and its child accessors (count, first, last, by index) agree with its children.',
 ['inputs','histories'],'every document, and every value reachable from it by any sequence of the public operations',
 'The tests compare three hand-made sizes; stored sizes are maintained incrementally by several operations, and a stale one only shows up later, for particular inputs or operation orders.',
 [F,N,SC,U],[('size cached at construction and updated incrementally',F+':append/cut/replace_child/From<Vec>'),('UTF-16 length cached in the text',N+':Text')],
 ['Node::node_size','Fragment::size','Text::len_utf16','Node::content_size'],
 state=[dict(name='cached fragment size',meaning='sum of the sizes of the children',where=F),dict(name='cached UTF-16 length',meaning='length of the text in UTF-16 code units',where=N)])
prop('C03','Cutting, joining and patching content loses nothing',
 'Cutting content between two positions keeps exactly the tokens between them, re-wrapped in the nodes they were in; joining two pieces of content yields the tokens of the first followed by those of the second, with adjacent texts of equal marks merged at the seam and nowhere else; replacing a child changes that child only. In particular, cutting content at any position and joining the halves at top level gives back the original content.',
 ['inputs'],'every content fragment and every pair of positions / child index / second fragment',
 'Only reached indirectly through about twenty fixed replace examples.',
 [F,N,U],[('recursive cut',F+':cut'),('seam merge',F+':append'),('child replacement',F+':replace_child'),('UTF-16 splitting',U+':split_at_utf16'),('node cut',N+':cut')],
 ['Fragment::cut','Fragment::append','Fragment::replace_child','Node::cut','Node::copy','Text::join'])
prop('C04','A slice is exactly the selected range with its open depths',
 'Slicing a document between two valid positions (bounded or unbounded range) returns the smallest enclosing content that contains exactly the tokens between the positions, plus as many unmatched opening and closing tokens as its two open depths say; with parents included the content starts at the root. An empty range gives the empty slice, and positions outside the document give an error.',
 ['inputs'],'every document, every ordered pair of positions, every kind of range bound, with and without parents',
 'The tests look at the result of slicing once; the remaining uses are fixed inputs to replace. Unbounded ranges and included parents are never exercised.',
 [N,F,R],[('slice between two resolved positions at their shared depth',N+':slice'),('range bound conversion',U)],
 ['Node::slice','Slice::content','Slice::open_start','Slice::open_end'])
prop('C05','Replacing a range splices tokens, or is refused',
 'Replacing a range of a schema-valid document by a slice whose closed nodes are schema-valid succeeds exactly when the open depths are backed by the slice\'s content and line up with the range, the nodes being joined have compatible content, and all re-closed nodes are valid; otherwise it returns an error. On success the result is the document whose token sequence is everything before the range, then the slice\'s tokens, then everything after the range, where joined nodes keep the type and attributes of the left one.',
 ['inputs'],'every document, every range, every slice (cut from the same or other documents or built by hand, with any open depths)',
 'Around 25 fixed examples on small documents; the algorithm recurses on two or three paths at once and its cases depend on the relative shape of four positions.',
 [RP,N,F,R],[('outer recursion',RP+':replace_outer'),('two-way and three-way joins',RP+':replace_two_way/replace_three_way'),('partial ranges at the seams',RP+':add_range/add_node'),('content check on close',RP+':close'),('slice preparation',RP+':prepare_slice_for_replace')],
 ['Node::replace','ReplaceStep::apply','ReplaceError'])
prop('C06','Applying steps never produces a schema-violating document',
 'Starting from a schema-valid document, after any sequence of steps in which each step\'s closed slice nodes are schema-valid, every document that a step application returned is schema-valid: each node\'s children match its content expression and carry only marks the node allows. A step that would break this is refused with an error and the document it was applied to stays as it was.',
 ['histories','inputs'],'every schema-valid start document and every history of replace, replace-around, add-mark and remove-mark steps, fitting or not',
 'Tests apply one mark step and single replaces; validity after a history, after wrapping, or after mark steps is never checked.',
 [RP,MS,RS,MC,MSc,N],[('content validity on close',RP+':close'),('gap fit check',RP+':insert_into'),('content expressions',MC),('mark permission',MSc+':allow_marks')],
 ['Step::apply'])
prop('C07','Every replacement can be undone exactly',
 'Replacing any range by the slice cut from that same range leaves the document unchanged. After any successful replacement, replacing the inserted range by the slice originally cut out of the document succeeds and restores the original document exactly, including types, attributes and marks.',
 ['inputs','histories'],'every document, range and fitting slice; also whole histories undone in reverse',
 'No test inverts a step; whether cut and replace are true inverses depends on every combination of depths and joins.',
 [RP,N,F],[('slice keeps open ancestors with their attributes',N+':slice'),('three-way replace closes right-hand nodes with the slice\'s own nodes',RP+':replace_three_way')],
 ['Node::slice','Node::replace','ReplaceStep::apply'])
prop('C08','Adding a mark touches exactly the selected inline content',
 'Applying an add-mark step over a valid range succeeds and gives every piece of inline content in the range, whose parent allows the mark, its previous marks plus the new one (replacing only a mark of the same type). Everything else in the document (text, structure, attributes, marks outside the range, content whose parent forbids the mark) is unchanged.',
 ['inputs'],'every document, range and mark, with any marks already present',
 'The one test adds a mark to unmarked text in one paragraph; existing marks, several blocks, partially covered texts and mark-free parents are not tried.',
 [MS,MK,MM,MSc],[('map over the sliced content',MS+':map_fragment_parent'),('set insertion',MK+':add_to_set'),('mark permission',MSc+':allows_mark_type'),('marks of a node',MM+':marks')],
 ['AddMarkStep::apply'])
prop('C09','Removing a mark removes that mark and nothing else',
 'Applying a remove-mark step over a valid range succeeds and removes exactly the given mark (same type and attributes) from the inline content in the range. Other marks, including same-type marks with other attributes, marks outside the range, and all text, structure and attributes stay as they were.',
 ['inputs'],'every document, range and mark, with any marks already present',
 'No test applies a remove-mark step at all.',
 [MS,MK,MM],[('map over the sliced content',MS+':map_fragment'),('set removal',MK+':remove_from_set')],
 ['RemoveMarkStep::apply'])
prop('C10','Mark sets behave as ordered sets keyed by type',
 'After any sequence of add and remove operations, by either the in-place or the copying interface, a mark set holds at most one mark per type in type order, contains exactly the last added and not since removed mark of each type, and two sets with the same members are equal however they were built. Removing a mark that is not in the set (also one of the same type with other attributes) leaves the set unchanged.',
 ['histories','inputs'],'every sequence of add/remove/from-list/contains operations over all mark types and attributes',
 'No test operates on a mark set with more than one mark.',
 [MK],[('binary search by type',MK+':add/remove/add_to_set/remove_from_set'),('sort and duplicate check on construction from a list',MK+':try_from')],
 ['MarkSet::add/remove/contains','Mark::add_to_set/remove_from_set/into_set','iteration and serialisation order'])
prop('C11','Structural steps never overwrite content',
 'A replace or replace-around step flagged as structural succeeds only if each range it deletes consists purely of closing tokens followed by opening tokens; if any text or leaf, or an opening followed by a closing, would be deleted, it is refused. When the deleted ranges are purely structural, the flag makes no difference to the outcome.',
 ['inputs'],'every document and every replace / replace-around step with the structure flag set',
 'No test sets the structure flag.',
 [RS],[('scan for content between two positions',RS+':content_between')],
 ['ReplaceStep::apply','ReplaceAroundStep::apply'])
prop('C12','Replace-around keeps the gap and swaps what surrounds it',
 'A replace-around step whose gap is a flat range within its outer range yields, when it succeeds, the document in which the outer range is replaced by the slice\'s tokens with the gap\'s content, unchanged, at the insertion point. It succeeds exactly when the gap is flat, the insertion point lies within the slice (not among the tokens of its open nodes), the gap content fits the (closed) node of the slice it is placed in, and the completed slice fits the outer range; otherwise it returns an error.',
 ['inputs'],'every document, outer range, gap, slice and insertion point (wrapping, lifting, changing node type, and arbitrary ones)',
 'No test applies a replace-around step.',
 [RS,RP],[('gap extraction and flatness',RS+':ReplaceAroundStep::apply'),('insertion into the slice',RP+':insert_at/insert_into')],
 ['ReplaceAroundStep::apply'])
prop('C13','Applying any step to any document returns, never aborts',
 'For every document and every step that can be deserialised from JSON, however nonsensical its positions, depths, slice or marks (reversed ranges, out-of-range or huge positions, positions inside a character, open depths deeper than the slice, non-document roots, documents violating the schema), applying the step returns either a new document or an error. It never panics and never changes the document it was given.',
 ['inputs'],'every deserialisable document and every deserialisable step, including hostile ones',
 'Tests only apply well-formed steps (and a few misfits) from trusted builders; a collaboration server receives steps from remote clients.',
 [TM,RS,MS,ST,RP,R,F,N,U],[('results instead of exceptions',ST+':StepResult'),('range checks on resolve',R+':resolve'),('depth checks',RP+':replace')],
 ['Step::apply on deserialised input'])
prop('C14','Documents and steps survive JSON, in ProseMirror\'s format',
 'Serialising any document, fragment, slice, mark set or step to JSON and deserialising it gives back an equal value, and the JSON has the shape and names ProseMirror uses (type, attrs, content, marks, text; stepType, from, to, gapFrom, gapTo, slice with openStart/openEnd, insert, structure, mark). JSON as ProseMirror itself writes it (empty content, marks, slices, zero open depths and false flags left out, optional attributes null, keys in any order) is accepted and means the same value.',
 ['inputs'],'every document and step of the Markdown schema, in every equivalent JSON spelling ProseMirror produces',
 'Four fixed JSON snippets are parsed; nothing is serialised in any test.',
 [SC,RP,TM,MS,RS,SP,MM,MA,DE,MK,N],[('serde derives with renames, flattening, defaults',MM+', '+TM+', '+RP),('null attributes become the default',DE)],
 ['serde_json::to_value / from_value / to_string / from_str of MarkdownNode, Step, Slice, MarkSet'])
prop('C15','Malformed JSON is rejected; accepted JSON is taken literally',
 'Deserialising arbitrary or corrupted JSON as a document or step never panics, and gives an error when the type is unknown, a required field or attribute is missing or has the wrong kind or range, or a text carries two marks of one type. What is accepted has consistent sizes and mark sets ordered by type, and serialising it again and reading that back gives the same value.',
 ['inputs'],'arbitrary JSON values and mutations of valid documents and steps',
 'No test feeds invalid JSON.',
 [SC,MM,MA,MK,TM,RP,DE],[('internally tagged enums',MM+', '+TM),('duplicate mark types refused',MK+':try_from')],
 ['serde_json::from_str / from_value'])
prop('C16','Steps keep text in normal form',
 'If a document and the steps\' slices have no empty texts and no two adjacent sibling texts with equal marks, then the document after any sequence of successfully applied steps has none either, so documents with equal content compare equal whatever edit history produced them.',
 ['histories','inputs'],'every normal-form document and every history of steps of all four kinds',
 'One test observes one merge; equality of documents reached through different histories is never tested.',
 [F,RP,MS],[('merge when appending',F+':append'),('merge when rebuilding',RP+':add_node'),('rebuilding marked content',MS+':map_fragment')],
 ['Step::apply result children'])
prop('C17','Replicas applying the same step log converge',
 'Applying a list of steps to a document yields the same outcome at every step (the same document, or a refusal) whether steps and documents are used directly or are shipped as JSON between replicas, and whether a replica joins from the start or from a serialised snapshot in the middle of the history.',
 ['histories'],'every start document, every history of steps (including refused ones), and every choice of where values pass through JSON and where a replica restarts from a snapshot',
 'No test combines serialisation with applying steps.',
 [TM,RS,MS,SC,MM],[('pure application on shared documents',ST+':StepKind'),('lossless serialisation',TM+', '+MM)],
 ['Step::apply','serde round trips'])
prop('C18','Traversal and text extraction cover exactly the range',
 'Traversing the nodes between two positions visits, in document order and each once, exactly the nodes overlapping the range whose ancestors were all descended into, with their true positions. Extracting text between two positions returns exactly the text in the range in order, with the leaf text at each other leaf and, if a block separator is given, a separator between text of different blocks and none within one; the text content of a node is the concatenation of all its text.',
 ['inputs'],'every document (any nesting), every range on character boundaries, every callback decision, separator and leaf text',
 'Text content is only taken of single text nodes in tests; ranges, nesting, separators and leaf texts never.',
 [F,N,U],[('recursive traversal',F+':nodes_between'),('text accumulation',F+':text_between'),('text of a node',N+':text_content')],
 ['Fragment::nodes_between','Fragment::text_between','Node::text_content'])
prop('C19','Content checks implement the schema\'s content expressions',
 'For every node type, matching a sequence of children (whole, or a sub-range, or type by type) succeeds exactly when it is a prefix of a sequence allowed by that type\'s documented content expression, and is a valid end exactly when the sequence is complete; content is valid exactly when it is complete and its marks are allowed. Testing whether a child range can be replaced gives exactly the validity of the content that results, and two types are compatible exactly when they are equal or some child type can begin both.',
 ['inputs'],'every node type, every child sequence, every sub-range, replacement and mark set',
 'Content checks are hit only through a few replace examples; most type pairs and sequences are never tried.',
 [MC,MSc,N,CT],[('match states',MC+':match_type/match_fragment_range/valid_end'),('compatibility',MC+':compatible'),('validity with marks',MSc+':valid_content'),('replaceability',N+':can_replace/content_match_at')],
 ['NodeType::valid_content/compatible_content/content_match','ContentMatch methods','Node::can_replace','Node::content_match_at'])
prop('C20','Markdown import reproduces the structure of the Markdown',
 'Importing Markdown text yields the document whose blocks, attributes, text and marks are those that CommonMark assigns to it (headings with level, code blocks with info and text, quotes, lists with start number, items, rules, breaks, images with source, title and alternative text, links, and text carrying exactly the emphasis, strong, code and link marks that surround it), or an error if it uses a construct the schema cannot hold.',
 ['inputs'],'every Markdown text',
 'No test calls the importer; the one test in that file only looks at the third-party parser\'s events.',
 [FM],[('event stream folded over a stack of open nodes and the set of open marks',FM+':deserialize')],
 ['from_markdown'])
prop('C21','Markdown import yields valid, normal documents or an error',
 'For every text, importing it as Markdown returns (it never panics) either an error or a document that is schema-valid, has no empty texts and no adjacent texts with equal marks, and has consistent sizes.',
 ['inputs'],'every string',
 'No test calls the importer.',
 [FM,MC,MSc],[('building nodes at end events',FM+':deserialize'),('merging text',FM+':add_content')],
 ['from_markdown'])
prop('C22','Markdown export can be imported back unchanged',
 'For every schema-valid document that Markdown can express plainly (its text is words without Markdown punctuation or spaces at the edges, its marked runs are set off by spaces or nest, headings have levels 1 to 6, no list is tight or directly follows one of its own kind, and no paragraph is empty except at the start of a list item or as the only block), exporting it to Markdown and importing the result gives the same document. Exporting any schema-valid document returns text or an error and never panics.',
 ['inputs'],'every schema-valid document within the stated text domain, all block and inline types, attributes and mark combinations',
 'One fixed document is exported and compared to a fixed string; marks that overlap or change order, lists, images, links, breaks and rules are not exported in any test.',
 [TO,FM],[('document walked into an event stream',TO+':MarkdownSerializer'),('open marks kept on a stack',TO+':marks')],
 ['to_markdown','from_markdown'])
prop('C23','Markdown import and export reach a fixed point',
 'For every plainly written Markdown text that imports successfully, exporting the imported document and importing that again gives the same document, so loading and saving a file repeatedly never changes its meaning.',
 ['inputs','histories'],'every Markdown text generated from words, headings, quotes, lists, fenced code, rules, emphasis, strong, code spans, links and images',
 'No test composes the two directions.',
 [TO,FM],[('importer and exporter are each other\'s inverse on this domain',FM+', '+TO)],
 ['from_markdown','to_markdown'])
prop('C24','Nodes know their kind and keep their markup when rebuilt',
 'Every node reports its own type, content, children, marks and text as it was built, and is text, a leaf, inline or block exactly as the schema says for its type, the node and its type agreeing. Copying a node with other content changes its content only; giving it other marks or another text changes those only; two texts have the same markup exactly when their marks are equal. The constructors and builder functions give the node they are named for, with exactly the given content, level, parameters and mark.',
 ['inputs'],'every node of every type, every content, mark set and text, every builder with every form of content',
 'Tests use a few builders to set up other tests; kinds, copies and marks of most node types are never looked at.',
 [N,'src/model/schema.rs','src/markdown/mod.rs','src/markdown/helper.rs',MSc],[('kind, content and marks of each variant','src/markdown/mod.rs:impl Node for MarkdownNode'),('kind of each type',MSc+':is_inline/is_block'),('copying with mapped content','src/model/schema.rs:copy'),('builders','src/markdown/helper.rs')],
 ['Node accessors, Node::copy, Node::mark','NodeType::is_inline/is_block','TextNode::same_markup/with_text','Block::copy, AttrNode::copy','markdown::helper'])
prop('C25','Values are equal exactly when their content is',
 'Two documents, fragments, slices, mark sets, marks or steps compare equal exactly when they agree in everything they consist of (types, attributes, marks, text, children and their division into nodes, open depths, positions, flags), however each was made (built, cloned, read from JSON, cut and joined); equal marks hash equally. Two resolved positions of equal documents are equal exactly when they are the same position.',
 ['inputs'],'every pair of values of one kind, including pairs that differ in a single place',
 'Tests compare results with one expected value each, so they cannot tell an equality that is too coarse.',
 [F,N,'src/model/marks.rs','src/model/schema.rs','src/model/replace.rs','src/transform'],[('equality of content',F+':Fragment'),('equality of nodes and marks','src/markdown/mod.rs'),('equality of slices and steps','src/model/replace.rs:Slice, src/transform')],
 ['PartialEq/Eq of MarkdownNode, Fragment, Slice, MarkSet, MarkdownMark, Step, ResolvedPos','Hash of MarkdownMark'])
prop('C26','A refusal names a true reason',
 'Whenever resolving, slicing, replacing, applying a step or importing Markdown is refused, the error names a reason that is really there: a position error names a position that was passed and is beyond the document, within a character, or an end of a reversed range; a too-deep insertion really opens more nodes than the start of the range is deep; an open-depth error carries the true depths of both ends and open depths of the slice, which really do not line up; a join error names two types with incompatible content that are open at the same depth, one on either side; an invalid-content error names a type of which some node would really have invalid content; an overwrite error is only given to structural steps whose range holds more than structure; a gap error only if the gap is really not flat, or really does not fit into the node it is put into; an unsupported-construct error only if the text has that construct. The message repeats the position, types or construct.',
 ['inputs'],'every document, every range, slice, step and text that is refused',
 'A few tests expect one particular error for one hand-made replacement; the reasons for all other refusals, of steps and of imports are never looked at.',
 [RP,RS,MS,R,N,FM],[('kinds of refusal of a replacement',RP+':replace/check_join/close'),('position errors',R+':resolve'),('structural and gap refusals',RS+':apply/content_between'),('insertion into the slice',RP+':insert_into'),('unsupported constructs',FM+':deserialize')],
 ['ReplaceError','ResolveErr','SliceError','InsertError','StepError','FromMarkdownError'])
here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,'..','properties.jsonl'),'w') as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+'\n')
