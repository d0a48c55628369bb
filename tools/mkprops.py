import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,observe,state=()):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                   state=[dict(name=n,meaning=m,where=w) for n,m,w in state],observe_at=observe,hook_needed=None)))
D='ebu_tt_live/'
p('P01','At every moment at most one document of a sequence is active: the right one',
 'After any set of compatible documents has been added to a sequence in any order, the document active at any moment t is the one with the highest sequence number among those whose computed begin time is not later than t, provided its own computed end has not yet been reached, and otherwise no document is active. The activation interval reported for every retained document and the documents returned for any queried time range agree with that rule, and it does not matter in which order the documents arrived.',
 ['histories','inputs'],'Every arrival order of any finite set of documents of one sequence with arbitrary sequence numbers, body begin/end/dur and availability times (endless documents, documents without body, documents arriving after they should have ended), and every queried time range.',
 'The feature files add at most three or four documents in a handful of fixed timings, mostly in order; the rule quantifies over all arrival orders and interval overlaps.',
 [D+'documents/ebutt3.py'],[('insert/discard/override of timeline events',D+'documents/ebutt3.py:_insert_or_discard,_override_sequence'),('range lookup',D+'documents/ebutt3.py:lookup_range_on_timeline')],
 ['sequence.add_document','document.resolved_begin_time/resolved_end_time','sequence.lookup_range_on_timeline'],
 [('timeline','begin and end events of the retained documents','EBUTT3DocumentSequence.timeline')])
p('P02','A sequence takes in only compatible new documents; a refusal changes nothing',
 'A document is taken into a sequence only if its sequence identifier, time base and (for clock time) clock mode equal those of the sequence, no document with its sequence number is currently held, and its authors group, if it states one, equals the one the sequence has stated or picked up first. Any other document is refused with the error category documented for its mismatch, and a refused document leaves the held documents, their activation times, and the last known sequence number exactly as they were.',
 ['histories','inputs'],'Every interleaving of compatible, duplicate and incompatible documents offered to a sequence or to a consuming node, for both supported time bases and all clock modes.',
 'Unit tests check one mismatch at a time on a fresh sequence; state preservation after a refusal in the middle of a history is never asserted.',
 [D+'documents/ebutt3.py',D+'node/consumer.py'],[('compatibility check before insertion',D+'documents/ebutt3.py:_check_document_compatibility')],
 ['sequence.add_document','sequence.is_compatible','last_sequence_number'])
p('P03','Handover emits exactly the documents of the author in control, renumbered',
 'For any stream of documents arriving at a handover node, a document is emitted if and only if it is not a recent repeat, names the node\'s authors group, carries a control token, and either its token is greater than the current one (taking control for its sequence) or it belongs to the sequence in control (updating the token). Emitted documents carry the output sequence identifier, consecutive sequence numbers from 1 in arrival order, and the identifier of the sequence they came from, and are otherwise unchanged; control messages are passed on under the output identifier without affecting control; a sequence that changes its authors group is refused without effect.',
 ['histories','schedules'],'Every interleaving of documents and messages from any number of author sequences, with any tokens, groups, repeats and missing attributes.',
 'The feature file tries a few three-document scripts; control depends on the whole history of tokens, repeats and switches.',
 [D+'node/handover.py',D+'node/base.py'],[('token comparison and renumbering',D+'node/handover.py:process_document')],['HandoverNode.process_document','producer carriage emit_data'],
 [('token, selected sequence, output counter','handover state','HandoverNode')])
p('P04','Relaying nodes pass every document on once, in order and unchanged',
 'A distributing node passes on every document it receives exactly once per sequence identifier and number (a repeat within the last hundred numbers of that sequence is dropped), in arrival order, byte for byte as received and with its sequence identifier, number, time base, clock mode and availability time; a buffer-delay node passes on every item unchanged, in order and with exactly its configured delay; control messages are passed on by both. Repeats of one sequence never suppress documents of another.',
 ['histories','schedules'],'Every interleaving of documents (with repeats, gaps, several sequences, more than a hundred documents) and messages.',
 'Tests send one or two documents through each node; the repeat window and the mixing of sequences only show over long histories.',
 [D+'node/distributing.py',D+'node/delay.py',D+'node/base.py',D+'utils.py'],[('seen-document ring per sequence',D+'node/base.py:check_if_document_seen'),('raw data forwarding',D+'node/distributing.py:process_document')],['producer carriage emit_data'])
p('P05','Computed activation times follow the document\'s timing tree',
 'For every document and availability time, each timed element\'s computed begin is the sum of the begins on its path, and never before availability; a container without a begin of its own begins no earlier than its earliest usable child. The computed end of an element is the earliest of its own end (counted from its parent\'s begin) and those of its ancestors; a container without an end of its own ends with the latest of its usable children, whose ends are limited by the ancestors\' in turn, and stays open if one of them is open; a leaf without an end ends with its ancestors or stays open. The body\'s duration counts from its begin or, without one, from availability. Elements whose own begin and end are contradictory do not contribute to their container; a body whose begin and end are contradictory makes the document start at zero and stay open. A zero is a stated time, and the notation a time is written in makes no difference.',
 ['inputs'],'Every timing tree (body, division, paragraph, span, nested spans) with any combination of begin, end, dur present or absent and any availability time, in both time bases.',
 'Feature tables list a few dozen attribute combinations on one fixed tree shape; interactions of nesting, missing attributes and availability are combinatorial.',
 [D+'bindings/validation/timing.py',D+'documents/ebutt3.py'],[('depth first syncbase and end stacks',D+'bindings/validation/timing.py')],['document.computed_begin_time/computed_end_time','element computed times'])
p('P06','An extracted fragment presents exactly what the source presents',
 'For any document or sequence and any time range, the fragment extracted for it presents at every moment of the range exactly the text the source presents at that moment, in the same order, and presents nothing outside the range. This holds for a sequence whatever documents were overridden, trimmed or missing in the range, and extraction leaves the source unchanged.',
 ['inputs','histories'],'Every document tree, every sequence of overlapping documents, every range including empty, open-ended and boundary-touching ones.',
 'Segmentation features check selected fragments of three template documents; agreement at every instant over arbitrary overlaps is never evaluated.',
 [D+'documents/ebutt3_segmentation.py',D+'documents/ebutt3_splicer.py',D+'documents/ebutt3.py',D+'bindings/validation/timing.py'],[('segment copy with leaf timing',D+'documents/ebutt3_segmentation.py'),('splicing',D+'documents/ebutt3_splicer.py')],['extract_segment result timed elements and text'])
p('P07','Resequenced output tiles time: consecutive windows, numbers and content',
 'Once its input sequence exists, a resequencing node emits, for each request, one document for the next window of its fixed segment length, the windows following each other without gap or overlap from its start, numbered consecutively from 1 under the output sequence identifier; before input exists it emits nothing and its window does not move. Each document presents in its window what the input sequence received so far presents there, and discarding already processed input never changes what later windows present.',
 ['histories','schedules'],'Every interleaving of arriving documents (early, late, overriding, duplicate) with window requests, with and without discarding of processed documents.',
 'One test drives a single window; the effect of arrivals between windows and of discarding needs arbitrary histories.',
 [D+'node/consumer.py',D+'documents/ebutt3.py'],[('window counter',D+'node/consumer.py:convert_next_segment'),('discarding processed documents',D+'documents/ebutt3.py:discard_before')],['ReSequencer.convert_next_segment','emit_data'])
p('P08','Fragments keep identity: unique ids, intact references, same resolved styling',
 'Every fragment extracted from a document or sequence is itself a valid document: identifiers are unique, every style and region reference it contains resolves within it, and styles or regions nothing refers to are dropped. Each piece of text it presents has the same resolved styling and the same region properties as in its source, even when several source documents use the same identifiers for different things. (Documents spliced together are those that agree on root extent and cell resolution.)',
 ['inputs','histories'],'Every set of documents with overlapping style and region names, reference chains, inline style attributes, and every range.',
 'Tests splice two documents with a fixed layout; clashes between arbitrary names and chains are not enumerated.',
 [D+'documents/ebutt3_segmentation.py',D+'documents/ebutt3_splicer.py',D+'bindings/__init__.py',D+'bindings/validation/presentation.py'],[('identifier prefixing',D+'documents/ebutt3_segmentation.py'),('style and layout merge',D+'documents/ebutt3_splicer.py')],['fragment XML'])
p('P09','Retiming shifts every presentation time by exactly the configured delay',
 'A retiming delay node emits each accepted document with every presentation interval the document states moved later by exactly the configured delay (open ends stay open; availability aside), the same text, styles and sequence number, the output sequence identifier, and one added processing record. A document that already carries the output identifier, or that belongs to a second input sequence, is refused and nothing is emitted; a repeat is dropped; messages pass unchanged.',
 ['inputs','histories'],'Every timing tree in both time bases and every delay, and every interleaving of documents, repeats, foreign documents and messages.',
 'The feature file has a few timing placements per element; the path-dependent choice of which attributes to move is tested on one tree.',
 [D+'node/delay.py'],[('choice between moving the body and moving descendants',D+'node/delay.py:process_document'),('untimed path search',D+'node/delay.py:UntimedPathFinder')],['emit_data'])
p('P10','Deduplication removes duplicate styles and regions without changing presentation',
 'A deduplicating node emits each new document with every set of styles (and of regions) whose properties are identical reduced to one member, references redirected to the survivor, and everything else - text, timing, resolved styling and region properties of each element - unchanged. Repeats of a document are dropped.',
 ['inputs','histories'],'Every document with any number of equal and different styles and regions, multiple references per element, chains of style references, and every arrival history.',
 'Feature examples use a fixed handful of duplicate styles; reference lists, chains and near-duplicates are combinatorial.',
 [D+'node/deduplicator.py'],[('hash of styles and regions',D+'node/deduplicator.py'),('reference rewriting',D+'node/deduplicator.py:ReplaceStylesAndRegions')],['emit_data'])
p('P11','Conversion to EBU-TT-D keeps text, order, presentation times and colours',
 'Converting a live document for distribution yields a valid distribution document that presents the same text in the same order at the same instants, mapped to media time by the configured time origin, with each piece of text keeping its text colour, background colour, alignment and relative font size. Text and elements are never lost, duplicated or reordered.',
 ['inputs'],'Every document tree, style assignment and time origin within range.',
 'Converter tests compare a few fixtures and single style values; they do not relate the presentation of arbitrary trees.',
 [D+'bindings/converters/ebutt3_ebuttd.py',D+'documents/converters.py',D+'node/encoder.py'],[('recursive element mapping',D+'bindings/converters/ebutt3_ebuttd.py')],['EBUTTDEncoder emit_data'])
p('P12','Styles resolve by reference order, then inheritance, region, and default',
 'The value of an attribute specified for an element is taken from the element itself if it states it, otherwise from the first style in its reference list, depth first through that style\'s own references, that states it. The resolved value used for an inheritable attribute is the specified one if any, otherwise the parent element\'s, then the region\'s, then the default; relative font sizes multiply along the containment path, so that 100% changes nothing.',
 ['inputs'],'Every acyclic style reference graph, reference list, region style and element nesting with any assignment of attributes.',
 'Tests cover each attribute on two or three nesting shapes, with one style each; orders and chains are not enumerated.',
 [D+'bindings/__init__.py',D+'bindings/validation/presentation.py'],[('ordered style collection',D+'bindings/__init__.py:style_type'),('style stack',D+'bindings/validation/presentation.py')],['computed_style','validated_styles'])
p('P13','Only consistent documents are accepted',
 'Building or reading a document fails, with nothing usable returned, whenever two elements share an identifier, a referenced style or region does not exist, style references form a cycle, a time expression does not belong to the document\'s time base, or an attribute the time base requires is missing or one it forbids is present; every document free of such defects is accepted.',
 ['inputs'],'Every combination of identifiers, references, reference cycles, time expression kinds and time-base parameters.',
 'Feature files list single defects in fixed places; cycles of any length and defects at any depth are not enumerated.',
 [D+'bindings/__init__.py',D+'bindings/validation/base.py',D+'bindings/validation/timing.py',D+'bindings/validation/presentation.py'],[('semantic validation traversal',D+'bindings/validation')],['EBUTT3Document.create_from_xml outcome'])
p('P14','Documents written to a folder are read back in order, intact and on time',
 'For any series of documents and messages written by the filesystem carriage, the manifest lists each written file once in write order with its availability time (including any delay), every file it names exists and holds exactly the bytes handed over, and a reader following the manifest delivers the same items in the same order with the same availability times, to the millisecond, each exactly once. Distinct items never share a file name within a run and a new run never overwrites the numbering of the previous one\'s manifest.',
 ['histories','inputs'],'Every interleaving of documents, distribution documents and messages, delays, availability times over a day, and manifest reads between writes.',
 'Tests write one or two documents and check one manifest line; reading while writing and mixed kinds of data are not tried.',
 [D+'carriage/filesystem.py'],[('manifest writer',D+'carriage/filesystem.py:FilesystemProducerImpl'),('manifest reader',D+'carriage/filesystem.py:FilesystemReader')],['folder contents','consumer node process_document'])
p('P15','Bounded file retention keeps exactly the newest files',
 'A writer limited to N files holds after any number of writes exactly the N most recently written ones (all of them if fewer), deletes each older one exactly once and nothing else, and keeps doing so when a file it should delete is already gone.',
 ['histories','fault_sequences'],'Every number of writes and limit, with files removed by others at any point.',
 'The existing test checks one overflow and no missing file.',
 [D+'utils.py',D+'carriage/filesystem.py'],[('ring with callback and deletion queue',D+'utils.py:RotatingFileBuffer')],['folder contents'])
p('P16','A broadcast subscriber gets each later document of its sequence and no other',
 'A websocket broadcast server delivers to each connected subscriber exactly the documents of the sequence it asked for that are published while it is connected, each once, unchanged and in order, whatever other clients come, go or misbehave; a client asking for a malformed path or an unknown role, or publishing for another sequence than its own, is disconnected and influences no one else. After a client leaves, nothing is sent to it and no error arises from its having been connected.',
 ['schedules','histories','fault_sequences'],'Every interleaving of connects, disconnects (at any point of the handshake), publications and node emissions by any number of clients of several sequences.',
 'Unit tests wire one client to one server with mocks; the interleavings of connection life cycles are not explored.',
 [D+'twisted/websocket.py',D+'carriage/websocket.py'],[('registration by sequence and role',D+'twisted/websocket.py')],['frames sent per client','consumer carriage on_new_data'])
p('P17','A pipeline is wired only when every hop can carry what it is given',
 'Connecting a node to a carriage succeeds exactly when the data kind one provides equals the data kind the other expects or a chain of the registered converters leads from one to the other, and a connection that succeeds converts every item without loss of its sequence identifier, number, time base, clock mode and availability time; otherwise it is refused with a compatibility error and neither side is changed. A given chain of converters is accepted only if each link fits the next.',
 ['configurations','inputs'],'Every pair of data kinds, every explicitly given converter chain, in both directions.',
 'Tests wire the pairs the product uses; refusals and explicit chains are sampled.',
 [D+'adapters/base.py',D+'adapters/node_carriage.py',D+'adapters/document_data.py',D+'node/base.py',D+'carriage/base.py'],[('converter lookup and chain check',D+'adapters')],['constructor outcome','delivered data and metadata'])
p('P18','A single-sequence node locks on to its first sequence and refuses others',
 'A consuming, retiming, resequencing or encoding node processes documents of the first sequence it accepts and refuses every document of another sequence from then on with an error and no other effect, however documents of the two are interleaved.',
 ['histories'],'Every interleaving of documents from any number of sequences, over each kind of single-sequence node.',
 'Tests send one foreign document after one accepted document.',
 [D+'node/base.py',D+'node/consumer.py',D+'node/delay.py',D+'node/encoder.py'],[('first sequence lock',D+'node/base.py:limit_sequence_to_one')],['process_document outcome','emit_data'])
p('P19','Time values survive every representation and clock mapping',
 'A duration written as a time expression of either time base and read back is the same duration to the millisecond, durations a notation cannot express are refused instead of wrapped, equal times written in different notations denote the same duration, and a media clock set by any reference pair maps local to media time with constant offset, exactly.',
 ['inputs'],'Every duration from zero to beyond the notation limits, every notation (hours to milliseconds counts, full and limited clock), every reference pair.',
 'Tests use a dozen sample expressions.',
 [D+'bindings/_ebuttdt.py',D+'clocks/media.py',D+'clocks/base.py'],[('regular expression decomposition',D+'bindings/_ebuttdt.py')],['time types','MediaClock.get_media_time'])
p('P20','Produced sequences number their documents consecutively and pace them by clock',
 'A producing sequence gives the documents it creates strictly consecutive sequence numbers, continuing after the highest number it has taken in, with the sequence\'s identifier, language, authors group and time parameters. A producer emits one valid document per block of input in input order carrying exactly that block\'s lines, activated one second after the clock reading for one second, and signals the end of input without emitting.',
 ['histories','inputs'],'Every interleaving of creations, additions and clock readings and every list of input blocks.',
 'Tests create one or two documents.',
 [D+'documents/ebutt3.py',D+'node/producer.py'],[('last number counter',D+'documents/ebutt3.py:new_document'),('producer',D+'node/producer.py:process_document')],['emit_data','new_document'])
p('P21','A configuration starts exactly the pipeline it describes or is refused',
 'For any combination of configured nodes and carriages, either the configured pipeline comes up with exactly one backend of the kind all parts need, servers for the same address shared by all parts that name it, each node bound to its own input and output, or the configuration is refused; two different backends, an address claimed under two different protocol versions, or an unknown type are refused.',
 ['configurations'],'Every combination of node types, carriage types, addresses and backends in a configuration.',
 'The configuration feature tries single nodes with one carriage.',
 [D+'config/app.py',D+'config/node.py',D+'config/carriage.py',D+'config/backend.py',D+'config/common.py'],[('backend registration',D+'config/common.py'),('server registry',D+'config/backend.py')],['AppConfig outcome'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
