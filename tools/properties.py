T = 'property-based testing (Hypothesis) against '
NOTE = ('Randomised search over generated inputs with shrinking; shows presence, not absence, of violations. Trusts the '
        'Jython runtime, PyXB and the oracle in /verif. ')

prop('C01', 'Time expressions are read, written and compared without losing time',
     'Every time expression the schemas allow (clock times, timecounts, either time base) denotes the instant its text says, and '
     'every instant the toolkit writes as a time expression reads back as the same instant to the millisecond, carrying included. '
     'Whatever the notation, two expressions of the same instant are interchangeable in a document.',
     ['inputs'], 'all lexically valid time expressions and all instants from zero to hundreds of hours, in every time base and notation',
     'unit tests convert a few dozen hand-picked values; rounding, carries and fraction lengths need the whole range',
     [B + '_ebuttdt.py'], [('time types and conversions', B + '_ebuttdt.py'), ('clocks used to interpret local times', 'ebu_tt_live/clocks')],
     T + 'an exact rational reading of the time grammar (differential, round trip)', NOTE + 'SMPTE is unsupported by the toolkit and excluded.',
     ['computed times of a parsed document', 'text of time values'])

prop('C02', 'Computed begin and end times follow the EBU-TT Live timing model',
     'For every valid document, availability time and nesting of body, div, p and span, the computed begin and end of the document and of each '
     'element equal what the timing model prescribes: nested times are relative to the parent, '
     'clipped by their ancestors, limited by the body duration and never earlier than availability.',
     ['inputs'], 'documents of any nesting, time base, combination of begin/end/dur and availability time',
     'the tests fix single documents per requirement; interactions of nesting, clipping, duration and availability are combinatorial',
     [B + 'validation/timing.py', D + 'ebutt3.py'],
     [('computation while traversing the document', B + 'validation/timing.py'), ('document level times', D + 'ebutt3.py')],
     T + 'an independent reference model of the timing rules', NOTE + 'The reference model was written from the specification text and the BDD features.',
     ['computed begin and end times'])

prop('C03', 'At every instant of a sequence the right document is active',
     'For any documents of a sequence delivered in any order at any availability times, the resolved begin of each document is its computed begin and '
     'its resolved end is the earlier of its computed end and the begin of any higher-numbered document. So at most one document is active at any '
     'instant, looking one up by time gives the same answer, and the result does not depend on the order of delivery. The content of a document between two times, which a verbose '
     'sequence logs, is that of its paragraphs active then, and logging it changes nothing.',
     ['histories'], 'all sets of documents, times and delivery orders (with late, overlapping, open-ended, zero-length and superseded documents)',
     'the tests deliver a handful of documents mostly in order; overlaps resolve differently for each relative order of number, time and arrival',
     [D + 'ebutt3.py'], [('timeline of begin/end events', D + 'ebutt3.py'), ('insertion and trimming', D + 'ebutt3.py')],
     T + 'a closed-form model of resolved times over delivery histories', NOTE, ['resolved begin and end times', 'active document lookup'])

prop('C04', 'Cutting a segment out of a document preserves what is presented in it',
     'For every document and every interval, the segment shows at each instant inside the interval exactly the text, regions, styles and languages the '
     'original shows at that instant, and nothing outside it. A segment is itself a valid document with no unused or missing styles and regions, '
     'and the source document is unchanged.',
     ['inputs'], 'all documents (nesting, styles, regions, timing) and all intervals inside, across or outside their activity',
     'the tests cut a few fixed documents at a few points; borders, nesting and references interact',
     [D + 'ebutt3_segmentation.py', D + 'ebutt3.py', B + '__init__.py'], [('copy of the active part of the tree', D + 'ebutt3_segmentation.py'),
      ('element copying', B + '__init__.py'), ('times of copied elements', B + 'validation/timing.py')],
     T + 'a rendering model: screens before and after at every change instant', NOTE, ['XML of the segment'])

prop('C05', 'Resegmenting a sequence preserves what the sequence presents',
     'For any sequence and any consecutive intervals, the documents produced for the intervals are numbered without gaps, cover each their interval, and show '
     'together at each instant exactly what the active document of the sequence shows then. Every reference in a produced document resolves, even '
     'if the source documents reuse the same identifiers for different styles and regions.',
     ['histories'], 'all sequences of documents and all interval choices, with colliding and non-colliding identifiers',
     'the tests splice a few compatible documents; identifier clashes and partial overlaps with boundaries are combinatorial',
     [D + 'ebutt3.py', D + 'ebutt3_splicer.py', B + '__init__.py', 'ebu_tt_live/node/consumer.py'],
     [('extraction of a sequence segment', D + 'ebutt3.py'), ('merging of documents', D + 'ebutt3_splicer.py'), ('re-sequencing node', 'ebu_tt_live/node/consumer.py')],
     T + 'the rendering model over the whole timeline', NOTE, ['XML of produced documents'])

prop('C06', 'Computed styles follow the inheritance rules',
     'For every element the computed value of every style property is what the reference order, inheritance, overriding and defaults rules give, '
     'including sizes relative to the parent. References to missing styles or regions and reference circles are rejected; the style of one element never '
     'affects an element that is not its descendant.',
     ['inputs'], 'all style graphs, style and region references on every element kind, and relative units',
     'the tests check single chains; referencing, overriding and inheritance form arbitrary graphs',
     [B + '__init__.py', B + 'validation/presentation.py', B + '_ebuttdt.py'],
     [('style resolution', B + 'validation/presentation.py'), ('style defaults and references', B + '__init__.py')],
     T + 'an independent model of style computation', NOTE, ['computed style of elements', 'validation errors'])

prop('C07', 'Writing a document out and reading it back keeps its content',
     'For every valid document the XML the toolkit writes contains the same elements in the same order, attributes, text (white space and non-ASCII characters '
     'included) and metadata as the XML it read. Writing again gives the same output.',
     ['inputs'], 'all valid documents with any text, nesting and attributes',
     'the tests compare a few fixed documents without mixed content, unusual characters or mixed child kinds',
     [B + '__init__.py', B + 'pyxb_utils.py', D + 'base.py'], [('serialisation', B + '__init__.py')],
     T + 'a canonical tree comparison (round trip)', NOTE, ['XML produced by documents'])

prop('C08', 'Validation accepts exactly the valid documents',
     'A document that obeys the schema and the semantic rules is accepted, and one that breaks any single rule (time base attributes, time formats, unique ids, '
     'references, attribute combinations, value grammars, structure) is rejected with a validation error. The verdict does not depend on documents processed before. '
     '(Unknown attributes where the schema has wildcards and the combinations of referenceClockIdentifier are not checked by the toolkit and not claimed.)',
     ['inputs', 'histories'], 'all valid documents and all single-rule mutations of them, in any processing order',
     'each test shows one rule on one document; rules must hold at every place of every document, after any history',
     [B + '__init__.py', B + 'validation/base.py', B + 'validation/timing.py', B + '_ebuttdt.py'],
     [('semantic validation', B + 'validation/base.py'), ('time base rules', B + 'validation/timing.py'), ('value types', B + '_ebuttdt.py')],
     T + 'a catalogue of rule-breaking mutations with expected verdicts', NOTE, ['acceptance or the error raised'])

prop('C09', 'Conversion to EBU-TT-D shows the same subtitles at the same times',
     'For every live document or re-sequenced segment whose times are on its paragraphs or on their spans (spans not nested), the EBU-TT-D document '
     'produced is valid (structure, units, references, required ids) and has the same text with the same times relative to the media offset, in the same regions '
     'and with the same computed style (one font size value; padding of styles excepted). Distribution-only restrictions (percentages, no nested or empty divs, '
     'default regions) are met without dropping text, the original is not changed, and what the encoder writes can be read again.',
     ['inputs'], 'all documents, time bases, offsets, sizes in every unit, nested content',
     'the tests convert a few documents and check fragments of the output',
     [B + 'converters/ebutt3_ebuttd.py', B + 'converters/timedelta_converter.py', B + '_ebuttdt.py', D + 'converters.py'],
     [('converter', B + 'converters/ebutt3_ebuttd.py')], T + 'the rendering model (differential)', NOTE, ['XML of the EBU-TT-D document'])

prop('C10', 'De-duplication changes references, never the presentation',
     'For every document the de-duplicated one contains no two equal styles or regions, all its references resolve, and every element keeps exactly the computed '
     'style and region it had. Content, timing and identifiers of everything else are unchanged, and the result does not depend on earlier documents.',
     ['inputs', 'histories'], 'all documents with equal, almost equal and distinct styles and regions, processed one after another',
     'the tests use a few documents with obvious duplicates',
     ['ebu_tt_live/node/deduplicator.py'], [('hashing and replacing of styles and regions', 'ebu_tt_live/node/deduplicator.py')],
     T + 'style resolution of input and output (metamorphic)', NOTE, ['XML of emitted documents'])

prop('C11', 'The retiming delay shifts presentation by exactly the delay',
     'For every document, the emitted one shows the same content, every time as written shifted by exactly the fixed delay (availability aside), keeps its sequence number and '
     'carries the new sequence identifier and an appliedProcessing metadata entry. Documents from its own output sequence or from a second sequence are refused and duplicates are dropped.',
     ['inputs', 'histories'], 'all documents with implicit or explicit, nested or absent times and any delay',
     'the tests shift a few documents with one level of times',
     ['ebu_tt_live/node/delay.py', B + 'validation/timing.py'], [('fixed delay', 'ebu_tt_live/node/delay.py')],
     T + 'the timing reference model (metamorphic shift)', NOTE, ['emitted documents'])

prop('C12', 'Passive nodes pass documents on unaltered, once and in order',
     'A distributing or buffer delay node emits every document it receives exactly once, byte for byte unchanged if received as text and in order of receipt (delayed by exactly the '
     'configured time in the buffer delay); documents repeating a number among the last hundred of their sequence are dropped, messages pass with equal content.',
     ['histories'], 'all sequences of documents, duplicates and messages, and all timings of arrival',
     'the tests push one or two documents through',
     ['ebu_tt_live/node/distributing.py', 'ebu_tt_live/node/delay.py', 'ebu_tt_live/node/base.py', 'ebu_tt_live/twisted/node.py'],
     [('duplicate detection', 'ebu_tt_live/node/base.py'), ('distribution', 'ebu_tt_live/node/distributing.py')],
     T + 'a queue model over histories', NOTE, ['documents handed to the output'])

prop('C13', 'The handover manager emits exactly the selected sequence',
     'For any history of documents of the same authors group, the output contains exactly the documents of the sequence holding control at the time they arrive: control passes only '
     'to a document with a higher (or, first, any) control token; output numbers increase by one with one output identifier, and the group attributes stay as specified. '
     'Documents of other groups or without group or token are not emitted.',
     ['histories'], 'all interleavings of sequences, groups, tokens and duplicates',
     'the tests replay one or two switches', ['ebu_tt_live/node/handover.py'], [('handover algorithm', 'ebu_tt_live/node/handover.py')],
     T + 'a state-machine model of handover', NOTE, ['emitted documents'])

prop('C14', 'Documents written to the file system come back complete, in order and on time',
     'For any sequence of documents and messages written by one run of the file system output into an empty folder, the reading side delivers each exactly once, in order, with identical content and with '
     'the availability time it was written with (to the millisecond). What has no availability time gets that of the clock of its sequence, and with a limited number of files the most recent ones are kept. Interrupted or partial manifest writing never makes it deliver corrupt data or skip documents.',
     ['inputs', 'histories', 'crash_points'], 'all documents, identifiers, availability times, rotation settings and reading moments',
     'the tests write and read a few files', ['ebu_tt_live/carriage/filesystem.py', 'ebu_tt_live/utils.py'],
     [('writer and manifest', 'ebu_tt_live/carriage/filesystem.py'), ('reader and tailing', 'ebu_tt_live/carriage/filesystem.py')],
     T + 'a list model (write-read round trip in a scratch folder)', NOTE, ['files written', 'data delivered'])

prop('C15', 'The websocket carriage delivers each sequence to exactly its subscribers',
     'For any interleaving of connections, subscriptions, publications and disconnections, every connected subscriber of a sequence receives each of its documents exactly '
     'once, in order, and nothing of other sequences. Malformed paths or actions and misdirected data are refused without disturbing other connections.',
     ['histories', 'schedules'], 'all interleavings of clients, roles, identifiers, data and faults',
     'the tests open one or two connections', ['ebu_tt_live/twisted/websocket.py', 'ebu_tt_live/carriage/websocket.py'],
     [('server, client and channel registry', 'ebu_tt_live/twisted/websocket.py')], T + 'a routing model over in-memory transports', NOTE,
     ['messages written to transports'])

prop('C16', 'Clocks map time in both directions consistently',
     'For every clock, time base and reference mapping, converting a time to the clock and back gives the same time, later times stay later, and documents and segments '
     'take their times from the clock their attributes name.',
     ['inputs'], 'all clocks, times and machine times', 'the tests convert single values', ['ebu_tt_live/clocks'],
     [('clock implementations', 'ebu_tt_live/clocks')], T + 'algebraic laws and a reference reading', NOTE, ['times returned by clocks'])

prop('C17', 'Components connect only when their data formats can be bridged, losslessly',
     'A node and a carriage connect exactly when their data types are equal or a chain of adapters bridges them, and then data arrives converted with content, '
     'sequence identifier, number and availability time intact in either direction.',
     ['configurations', 'inputs'], 'all pairs of node, carriage and adapters, and documents',
     'the tests connect a few pairs', ['ebu_tt_live/adapters', 'ebu_tt_live/carriage/base.py', 'ebu_tt_live/node/base.py'],
     [('adapters', 'ebu_tt_live/adapters/document_data.py'), ('connection checks', 'ebu_tt_live/adapters/node_carriage.py')],
     T + 'a compatibility model', NOTE, ['data delivered', 'errors raised'])

prop('C18', 'A configuration builds exactly the pipeline it describes',
     'Every valid configuration creates the named nodes with the given parameters connected to the given carriages, unnamed options taking their documented defaults. '
     'Invalid configurations are rejected with a configuration error.',
     ['configurations'], 'all node types, carriages, adapters and parameters', 'the tests load a few configurations',
     ['ebu_tt_live/config', 'ebu_tt_live/scripts/ebu_run.py'], [('configurators', 'ebu_tt_live/config')],
     T + 'the same nodes wired by hand on simulated time and network (differential), a list of sockets, and mutations that must be refused', NOTE, ['emitted documents, files, sockets, nodes'])

prop('C19', 'Buffers, file rotation and the tokenizer keep exactly what they promise',
     'A bounded buffer holds the most recent elements up to its limit in order (all of them without a limit) and hands each element that falls out to its call-back exactly once. The rotating '
     'file buffer deletes exactly the files that fell out, also when a deletion fails at first, and no others. Comparable objects order by their key. Text is tokenised into subtitles of at most '
     'two lines of 38 characters keeping every word in order.',
     ['histories'], 'all sequences of operations, limits, deletion failures and texts', 'the tests append a few elements', ['ebu_tt_live/utils.py'],
     [('containers', 'ebu_tt_live/utils.py')], T + 'a list model (stateful) with injected deletion failures', NOTE, ['contents, call-backs, files, lines'])

prop('C20', 'Live messages survive the trip',
     'Every control message keeps its sender, recipients, payload, header and identifiers when written and read, is told apart from documents by its content, and '
     'invalid messages are rejected.',
     ['inputs'], 'all messages and texts', 'the tests use one message', [D + 'ebutt3.py', B + '__init__.py'],
     [('message documents', D + 'ebutt3.py')], T + 'a field model (round trip)', NOTE, ['XML and fields of messages'])

prop('C21', 'Lengths and colours are computed exactly',
     'Adding, scaling and converting lengths between cells, percentages and pixels gives what the cell resolution and extents define, within the stated rounding, and every colour '
     'notation denotes the same colour after conversion.',
     ['inputs'], 'all values, units and resolutions', 'the tests convert a few values', [B + '_ebuttdt.py'],
     [('value types', B + '_ebuttdt.py')], T + 'exact rational arithmetic', NOTE, ['converted values'])

prop('C22', 'A sequence accepts only documents that belong to it, once each',
     'A document joins a sequence exactly when identifier, time base, clock mode and authors group agree and its number is not in use; otherwise it is refused with the documented error and '
     'the sequence is unchanged. Documents created by a sequence continue its numbering and attributes.',
     ['histories'], 'all sequences of compatible and incompatible additions', 'the tests try one mismatch each', [D + 'ebutt3.py'],
     [('compatibility check', D + 'ebutt3.py')], T + 'a membership model (stateful)', NOTE, ['exceptions', 'sequence contents'])

prop('C23', 'Any input is either a document or a clean refusal',
     'Whatever bytes or XML arrive, parsing ends in a document or in a documented parsing or validation error, never in another exception, and other documents, read before or after or at the '
     'same time in other threads, are processed as if nothing had happened.',
     ['inputs', 'histories'], 'all byte strings and mutated documents', 'the tests parse a few invalid files', [D + 'ebutt3.py', B + '__init__.py', B + 'pyxb_utils.py'],
     [('parsing', B + '__init__.py')], T + 'an exception contract (grammar-based mutation fuzzing)', NOTE, ['result or exception type'])

prop('C24', 'Documents made by program are the documents described',
     'The simple producer makes exactly one document of each block of text (or of the time, without text), with consecutive numbers, the attributes of its sequence and the lines of the block in order, '
     'active for one second from one second after it was made, until the text ends. A document built with the document and binding classes has the computed times, attributes, elements and identifiers it '
     'was given, is valid, and is the same when written out and read back.',
     ['inputs', 'histories'], 'all texts, clock times, sequence attributes and trees of elements, set when or after they are created',
     'the tests build a few documents with a single element each and never produce a sequence of texts', ['ebu_tt_live/node/producer.py', D + 'ebutt3.py', B + '__init__.py'],
     [('producing documents', 'ebu_tt_live/node/producer.py'), ('document interface', D + 'ebutt3.py'), ('element classes', B + '__init__.py')],
     T + 'a description of the document and the timing reference model (model-based, round trip)', NOTE, ['documents emitted', 'XML of built documents', 'computed times'])
U = 'ebu_tt_live/ui/user_input_producer/'
prop('C25', 'The user input producer page sends what the user entered',
     'Whatever the user types, selects and clicks, every document and control request the page sends is one the toolkit accepts, with the identifier, time base, clock mode, group and token of the selected '
     'sequence, exactly the lines and times in the form, and a number never used before for that sequence, also after the page was loaded again. It is sent exactly when asked for: at once, with each key '
     'that triggers sending, at the scheduled time on the clock chosen (as it was when scheduled), or at each interval. The page shows the media clock from zero, received documents and messages (the '
     'last ten) and the on-air flag as received, and does not slow down the longer it stays open.',
     ['inputs', 'histories', 'schedules'], 'all texts, names, orders of entering, connecting, sending, waiting and reloading, in any time zone',
     'no test of the repository runs the page', [U + 'uip.js', U + 'index.html', U + 'template/user_input_producer_template.xml', U + 'template/live_message_template.xml'],
     [('page logic', U + 'uip.js'), ('document template', U + 'template/user_input_producer_template.xml'), ('message template', U + 'template/live_message_template.xml')],
     T + 'a model of the page on simulated time; what is sent is read with the toolkit (model-based, stateful)', NOTE, ['data sent on the websocket', 'addresses opened', 'lists and flags shown'])
