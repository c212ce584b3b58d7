"""Writes properties.jsonl (kept as code only because JSONL is hard to edit)."""
import json, os

P = []


def p(id_, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({
        'id': id_, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': files,
            'mechanism': [{'name': n, 'where': w} for n, w in mech],
            'state': [{'name': n, 'meaning': m, 'where': w}
                      for n, m, w in state],
            'observe_at': observe, 'hook_needed': None}})


FR = 'httpolice/framing1.py'
ST = 'httpolice/stream.py'
INS = 'httpolice/inputs/streams.py'
CLI = 'httpolice/cli.py'

p('C01', 'Complete HTTP/1.x connections are reported exactly as sent',
  'For every connection captured completely, given in any of the HTTP/1.x '
  'stream formats, HTTPolice reports exactly the requests and responses that '
  'were sent: each one once, in order, every response with its request, with '
  'the same method, target, version, status, reason, headers, trailers and '
  '(transfer-decoded) body, and the byte offset where it starts. Bytes inside '
  'a body are never taken for a message, and bytes after a protocol switch '
  'are never parsed. The only framing notices raised are those that describe '
  'what was really sent (folded headers, bare line feeds, a protocol switch, '
  'unparsed remaining data).',
  ['inputs', 'schedules', 'configurations'],
  'Every pipeline of requests and responses (any number, interim responses, '
  'HEAD/CONNECT/101/204/304, Content-Length, chunked, read-until-close, '
  'stacked transfer codings, trailers, obs-fold, LF line ends), every way '
  'the peers\' bytes can arrive at the reader, every buffer size.',
  'The tests are a few hundred hand-written files, nearly all with one small '
  'exchange that fits one buffer and is read in one piece.',
  [FR, ST, INS, 'httpolice/codings.py', 'httpolice/header.py'],
  [('pairing loop', FR + ' parse_streams, _parse_responses'),
   ('body length rules', FR + ' _parse_request_body, _parse_response_body'),
   ('chunked decoding', FR + ' _parse_chunked, _parse_chunk'),
   ('stream reading', ST + ' Stream.read, readline, peek')],
  ['exchanges yielded by the input formats'],
  [('stream.eof/sane', 'whether anything more may be parsed', ST)])

p('C02', 'A capture cut off at any byte yields only what was really sent',
  'If a capture of a connection is cut off at an arbitrary byte of either or '
  'both directions, HTTPolice reports unchanged every message that was '
  'captured completely, still paired as it really was, and never reports a '
  'message that was not sent. A message whose end was cut off is never '
  'presented as complete unless the bytes present are by themselves a '
  'complete message: its body is reported as unavailable, and the cut is '
  'reported with the notice, stream and byte position that locate it. '
  'Nothing is dropped silently: what cannot be parsed or paired is '
  'announced, and responses whose requests were lost to the cut are reported '
  'unpaired, after notice 1008.',
  ['crash_points', 'inputs', 'schedules'],
  'Every connection as in C01, cut at every byte of the inbound stream, the '
  'outbound stream, or both, under every read schedule.',
  'The tests have a handful of fixed truncated files; where a cut falls '
  'inside a line, a chunk, a coding or between messages decides which of '
  'many error paths runs.',
  [FR, ST],
  [('short read detection', ST + ' Stream.read, Stream.readline'),
   ('partial-body handling', FR + ' _process_content_length, _parse_chunked'),
   ('leftover announcements', FR + ' parse_streams')],
  ['exchanges and complaint boxes yielded by the input formats'])

p('C03', 'Damaged streams: the undamaged prefix stands, then parsing stops',
  'When the bytes of a connection are damaged in transit or capture (flipped, '
  'inserted, deleted, duplicated or reordered segments), HTTPolice reports '
  'exactly what HTTP/1.x framing rules (RFC 7230) give for the bytes in the '
  'file: every message parsed before the damage is intact, and once framing '
  'is lost nothing after that point is parsed or guessed. Every loss of '
  'framing is reported by the notice for its cause with the right stream and '
  'byte offset, a damaged body is reported as unavailable rather than '
  'partial, and data left unparsed is announced with the offset where it '
  'starts.',
  ['fault_sequences', 'inputs', 'schedules'],
  'Every valid connection with any sequence of segment- and byte-level '
  'damage applied to either direction.',
  'Tests cover about a dozen hand-made malformed streams; the space of '
  'damage position x kind x framing state is unbounded.',
  [FR, ST, 'httpolice/syntax/rfc7230.py'],
  [('loss of synchronisation flag', ST + ' Stream.sane, Stream.error'),
   ('line rules', FR + ' _parse_request_heading, _parse_response_heading, '
    'parse_header_fields'),
   ('framing precedence', FR + ' _parse_request_body, '
    '_parse_response_body')],
  ['exchanges and complaint boxes, their notices and error positions'])

p('C04', 'No damaged input can crash or hang the tool',
  'Whatever bytes are found in the input files of any supported format '
  '(including HAR), the command-line tool finishes with exit status 0 or 1: '
  'either with a complete report, or with status 1 and a one-line error '
  'message on standard error naming the problem. It never terminates with an '
  'unhandled exception and never hangs, in either report format.',
  ['fault_sequences', 'inputs', 'configurations'],
  'Every corruption of every realistic capture: framing, header values, '
  'bodies (compressed, JSON, XML, multipart, any charset), file names, HAR '
  'structures of any shape.',
  'The fuzz test samples fixed seeds of one input format with a small '
  'mutation alphabet; the twelve crashes repaired here were all reachable '
  'and none was hit.',
  [CLI, FR, 'httpolice/inputs/har.py', INS, 'httpolice/message.py',
   'httpolice/header.py', 'httpolice/parse.py', 'httpolice/structure.py'],
  [('errors turned into notices', 'httpolice/message.py derived '
    'properties; httpolice/parse.py parse'),
   ('fatal input errors', 'httpolice/inputs/har.py, ' + INS),
   ('error reporting', CLI + ' run_cli')],
  ['exit status, standard error, report of the command-line tool'])

p('C05', 'How input bytes arrive never changes the report',
  'The report depends only on the bytes of the input, not on how the '
  'operating system delivers them: reads that return one byte, arbitrary '
  'short reads, any buffer size, and any boundary between two reads give '
  'byte-for-byte the same notices, offsets, error positions and error '
  'messages as reading everything at once. This holds for well-formed and '
  'damaged input of every format.',
  ['schedules', 'inputs', 'configurations'],
  'Every partition of every input file into reads, every buffer size from '
  'one byte up.',
  'Tests read small local files, which are always delivered in one full '
  'buffer; no test ever crosses a buffer boundary.',
  [ST, FR, INS, 'httpolice/inputs/har.py'],
  [('peek-based end-of-file detection', ST + ' Stream.peek, read, readline'),
   ('direction sniffing', INS + ' _sniff_inbound, _sniff_outbound')],
  ['text and HTML reports, exit status, standard error'])

p('C06', 'Directories of captured streams are paired and oriented correctly',
  'Given tcpflow or tcpick directories holding any number of connections, '
  'every stream file is used exactly once: the two directions of a '
  'connection are joined with each other and never with those of another '
  'connection, and requests are told from responses by content whichever '
  'side comes first. One-sided connections are still parsed and announced '
  'with notice 1278, non-HTTP connections are announced with notice 1279 and '
  'not parsed, and unrecognised or ambiguous file names are refused with an '
  'error instead of producing a wrong report.',
  ['inputs', 'schedules', 'configurations'],
  'Every set of connections and capture file names: port and address reuse, '
  'mirrored pairs, missing or empty sides, non-HTTP traffic, several '
  'directories, every directory listing order.',
  'Tests use five small fixed directories.',
  [INS],
  [('recombination', INS + ' _recombine_streams'),
   ('direction sniffing', INS + ' _sniff_direction'),
   ('file name parsing', INS + ' tcpick_input, tcpflow_input')],
  ['exchanges yielded for a directory, error messages'])

p('C07', 'Merging concurrent connections loses and reorders nothing',
  'When several connections are processed together, the report contains '
  'every exchange of every connection exactly once, and exchanges of one '
  'connection keep their order. Connections are interleaved by time: at '
  'every point the next exchange comes from the connection whose current '
  'position in time (from the capture\'s timestamp, advanced to the Date - '
  'plus Age, for responses - of its exchanges) is earliest, the first one '
  'given winning ties, and connections whose time is unknown coming first. '
  'In the sequential formats (combined and HAR), every file is reported to its '
  'end before the next one, in the order given.',
  ['schedules', 'histories', 'inputs'],
  'Every number of concurrent connections, every combination of start times '
  'and Date/Age values, including skewed, missing, backwards and extreme '
  'clocks of the peers.',
  'Tests have one three-connection capture and a few fixed sequences.',
  [INS],
  [('k-way merge', INS + ' _rearrange_by_time'),
   ('time of an exchange', INS + ' _exchange_time'),
   ('sequential formats', INS + ' combined_input'),
   ('sequential formats', 'httpolice/inputs/har.py har_input')],
  ['order of exchanges in the output'])

p('C08', 'The same input always gives the same report',
  'Running the tool again on the same input at the same time gives exactly '
  'the same bytes on standard output and standard error and the same exit '
  'status, in a new process, with any hash randomisation seed, any order of '
  'directory listings, any time zone and any locale. The only exception is '
  'the arbitrary numbering of cross-references inside HTML reports.',
  ['schedules', 'configurations', 'inputs'],
  'Every input and every environment-controlled source of nondeterminism: '
  'hash seed, directory order, memory addresses, time zone, locale.',
  'Each test runs once in one process with one hash seed and mostly compares '
  'sets of notice IDs, not the report.',
  ['httpolice/parse.py', 'httpolice/reports/html.py',
   'httpolice/reports/text.py', INS, 'httpolice/response.py',
   'httpolice/header.py'],
  [('ordered notices', 'httpolice/blackboard.py'),
   ('ordered listings', INS + ' tcpick_input, tcpflow_input'),
   ('ordered parse errors', 'httpolice/parse.py _build_parse_error')],
  ['reports and exit status of separate processes'])

p('C09', 'What was checked before never changes the result of a check',
  'In one process, the notices and report produced for an exchange depend '
  'only on that exchange: checking any sequence of other exchanges before '
  'it, in any order and any number (filling, evicting and refilling internal '
  'caches), or checking an equal exchange again, gives the same notices in '
  'the same order with the same wording. Neither checking an exchange nor '
  'producing a report changes it (its headers mean the same as before), so '
  'it can be reported again, in either format, with the same result.',
  ['histories', 'inputs', 'configurations'],
  'Every history of checks in one process and every cache size.',
  'Every test checks its message once, and no test compares a result '
  'against the same check made in another history.',
  ['httpolice/parse.py', 'httpolice/blackboard.py', 'httpolice/message.py',
   'httpolice/header.py', 'httpolice/known/__init__.py',
   'httpolice/reports/html.py'],
  [('parse memoization and eviction', 'httpolice/parse.py parse'),
   ('per-object memoization', 'httpolice/blackboard.py derived_property')],
  ['notices and reports of each exchange'],
  [('memo', 'parse results by input, symbol and annotation classes',
    'httpolice/parse.py _memo')])

p('C10', 'Threads checking at the same time get the same results',
  'When several threads of one process check different exchanges and '
  'generate reports at the same time, under any interleaving of their '
  'execution, each gets exactly the notices and report it would get alone. '
  'No interleaving makes a check fail, and none spoils the result of a later '
  'check.',
  ['schedules', 'histories'],
  'Every interleaving of checks and reports by several threads at source '
  'line granularity, including contention on the shared parse cache and on '
  'the first use of each grammar rule.',
  'All tests are single-threaded.',
  ['httpolice/parse.py', 'httpolice/reports/html.py',
   'httpolice/known/__init__.py', 'httpolice/header.py'],
  [('shared memo under the GIL', 'httpolice/parse.py parse'),
   ('lazily built grammar', 'httpolice/parse.py Symbol rules, nullability'),
   ('thread-local document building', 'httpolice/reports/html.py')],
  ['notices and reports of each thread'],
  [('memo', 'shared between threads', 'httpolice/parse.py _memo')])

p('C11', 'An interrupted check does not poison later checks',
  'If checking an exchange or writing a report is interrupted at any point '
  'by an asynchronous exception (a keyboard interrupt, a test timeout, '
  'exhausted memory), every later check and report in the same process gives '
  'the same result as if the interrupted one had never started. This '
  'includes checking again an equal exchange.',
  ['crash_points', 'histories'],
  'Every point of execution (line granularity) of every check, parse and '
  'report, one or several interruptions in a row.',
  'No test interrupts anything.',
  ['httpolice/parse.py', 'httpolice/blackboard.py', 'httpolice/message.py',
   'httpolice/reports/html.py', 'httpolice/header.py'],
  [('cache updated only with complete results', 'httpolice/parse.py parse'),
   ('lazily built grammar', 'httpolice/parse.py'),
   ('per-object memoization', 'httpolice/blackboard.py derived_property')],
  ['notices and reports of later exchanges'])

p('C12', 'Input failures are reported, never turned into wrong results',
  'If opening, listing or reading any input fails at any point (I/O error, '
  'missing file, no permission, too many open files), the tool prints the '
  'error on standard error and exits with status 1. The report written until '
  'then is a prefix of the report on the intact input, made of whole '
  'exchanges: an unreadable part is never treated as the end of the data, '
  'and no truncated message is reported as if it were what the peer sent.',
  ['fault_sequences', 'crash_points', 'inputs'],
  'Every open, directory listing and read of every input format failing with '
  'every error, at every byte offset.',
  'Tests only try nonexistent paths.',
  [CLI, INS, ST, 'httpolice/inputs/har.py'],
  [('errors pass through the parser', ST + ', ' + INS),
   ('error reporting', CLI + ' run_cli')],
  ['exit status, standard error, report'])

p('C13', 'Failures of the output are never silent',
  'If writing the report fails at any point (disk full, broken pipe, I/O '
  'error), the failure surfaces: the tool exits with a non-zero status and '
  'an error on standard error, and a library caller gets the exception. What '
  'had been written is exactly a prefix of the complete report, and if the '
  'output accepts everything, it has received the complete report.',
  ['fault_sequences', 'crash_points', 'schedules'],
  'Every byte of the report at which the output may fail, every error, torn '
  'and short writes, every output buffer size, both report formats.',
  'Tests write to in-memory buffers that never fail.',
  [CLI, 'httpolice/reports/text.py', 'httpolice/reports/html.py',
   'httpolice/util/text.py'],
  [('errors pass through the report generators',
    'httpolice/reports/text.py, httpolice/reports/html.py'),
   ('error reporting', CLI + ' run_cli')],
  ['exit status, standard error, bytes received by the output'])

p('C14', 'Reports stream: bounded look-ahead and memory',
  'Input is processed one exchange at a time: the report on an exchange is '
  'written after reading no more of its connection than that exchange and '
  'the one after it plus one read buffer, and before any input file that '
  'comes later in a sequential format is touched. The number of exchanges '
  'held in memory at once is bounded by the number of connections and does '
  'not grow with the number of exchanges.',
  ['schedules', 'inputs', 'histories'],
  'Every length of connection and number of files, every read schedule, both '
  'report formats.',
  'Tests compare final results of tiny inputs; reading everything first '
  'passes them all.',
  [CLI, INS, FR, 'httpolice/reports/text.py', 'httpolice/reports/html.py'],
  [('generators from input to output', CLI + ' run_cli, ' + FR +
    ' parse_streams, ' + INS),
   ('incremental writing', 'httpolice/reports/html.py, '
    'httpolice/reports/text.py')],
  ['event log of reads and writes, live exchange objects'])

p('C15', 'Clock-dependent notices follow the clock, and nothing else does',
  'A message is flagged as dated in the future (notice 1109) exactly when '
  'its Date is more than 10 seconds ahead of the current UTC time, and a '
  'response as generated in the future by its Age (notice 1241) exactly when '
  'Date plus Age is more than 30 seconds ahead of it (except on 103 '
  'responses), at the moment it is checked. No other notice depends on the '
  'current time, and none depends on the local time zone; no time '
  '(within the years 1 to 9998) and no jump of the clock makes a check fail.',
  ['schedules', 'fault_sequences', 'inputs'],
  'Every current time, skew between the peers and the checking machine, '
  'clock jump between or during checks, time zone, and Date/Age value in '
  'every date format.',
  'Tests run at whatever the current time is, with dates far in the past or '
  'in the far future.',
  ['httpolice/message.py', 'httpolice/response.py', 'httpolice/header.py',
   'httpolice/syntax/rfc7231.py'],
  [('comparison with current UTC time', 'httpolice/message.py '
    'check_message; httpolice/response.py check_response_itself'),
   ('date parsing', 'httpolice/syntax/rfc7231.py')],
  ['notices on messages checked at a simulated time'])

p('C16', 'Every input file is closed, and few are open at once',
  'However processing ends (normally, on an input error, an I/O error, a '
  'failing output, or because the caller stops consuming exchanges), every '
  'input file that was opened is closed explicitly. At any moment the open '
  'files are no more than two per connection being merged, connections in '
  'sequential formats are open one at a time, and direction sniffing leaves '
  'nothing open, so that the number of input files can exceed the limit on '
  'open files whenever the connections do not overlap in time.',
  ['fault_sequences', 'crash_points', 'schedules'],
  'Every number of files, every point of failure or abandonment, every '
  'limit on open files.',
  'Tests open a few small files, and leaked files are closed by the garbage '
  'collector without a trace.',
  [INS, 'httpolice/inputs/har.py'],
  [('finally blocks and with statements', INS + ' _parse_paths, '
    '_sniff_inbound, _sniff_outbound, parse_combined'),
   ('lazy opening', INS + ' _path_pairs_input')],
  ['opens, closes and leaks at the file system'])

p('C17', 'Report, HTML, API and exit status agree; silencing is exact',
  'For any input, the text report, the HTML report, the notices available '
  'through the Python API and the exit status under every --fail-on '
  'threshold describe the same notices on the same messages in the same '
  'order. Silencing a set of notice IDs (by option, by call or by an '
  'HTTPolice-Silence header, which applies to its own message and, on a '
  'request with "resp", to the responses) removes exactly those notices '
  'everywhere, from the exit status too, whenever it happens relative to '
  'checking, and changes nothing else.',
  ['histories', 'configurations', 'inputs'],
  'Every set of notices, every order of silencing, checking and reporting, '
  'every combination of options.',
  'Tests check a few fixed messages, each through one of the channels.',
  [CLI, 'httpolice/blackboard.py', 'httpolice/exchange.py',
   'httpolice/request.py', 'httpolice/response.py', 'httpolice/reports/text.py',
   'httpolice/reports/html.py'],
  [('silencing as a view', 'httpolice/blackboard.py Blackboard.silence, '
    'complaints'),
   ('HTTPolice-Silence', 'httpolice/request.py, httpolice/response.py'),
   ('exit status', CLI + ' run_cli')],
  ['text report, HTML report, notices, exit status'])

p('C18', 'Damaged encoded bodies are never presented as decoded',
  'When a compressed body (content coding or transfer coding, any stack of '
  'gzip, deflate and Brotli) is corrupted or incomplete, HTTPolice either '
  'decodes it to exactly the original content or reports it as unavailable '
  'together with a notice naming the coding that failed. An intact body is '
  'always decoded to exactly the original, without such a notice, and an '
  'unknown coding is reported as such and never treated as identity. (Brotli '
  'has no checksum: corruption of Brotli data that leaves a valid stream '
  'cannot be told, so there only incomplete and invalid data has to be '
  'detected.) An empty body needs no decoding.',
  ['fault_sequences', 'inputs', 'crash_points'],
  'Every body, every stack of codings, every truncation, bit flip, '
  'insertion, deletion or trailing garbage at every byte of the encoded '
  'form.',
  'Tests have a few fixed bodies, and none is cut short.',
  ['httpolice/codings.py', 'httpolice/message.py', FR],
  [('decoders verify checksums and completeness', 'httpolice/codings.py'),
   ('failure becomes a notice', 'httpolice/message.py decoded_body; ' + FR +
    ' _decode_transfer_coding')],
  ['decoded body and notices of a message, displayed body'])

p('C19', 'Oversized declared bodies are refused without being read',
  'A body whose declared length (Content-Length, or the sum of the chunk '
  'sizes so far) exceeds one gibibyte is never read or allocated: it is '
  'reported as unavailable with notice 1298 giving the declared size, and '
  'that stream is not parsed any further, while everything before it and the '
  'other direction are reported as usual. A body of at most that length is '
  'read normally.',
  ['fault_sequences', 'inputs', 'schedules'],
  'Every declared size around and far above the limit, split into any '
  'number of chunks, in requests and responses at any position, with or '
  'without the data present.',
  'Tests have two fixed oversized messages and cannot observe how much was '
  'read.',
  [FR, ST],
  [('size limit', FR + ' _process_content_length, _parse_chunk')],
  ['sizes requested from the file, exchanges and notices'])

p('C20', 'A capture still being written is like one that was cut off',
  'If the files of a capture grow while HTTPolice is reading them (the '
  'capture is still in progress), the report on a connection is exactly the '
  'one it would give if the capture of each direction had been cut off where '
  'its file ended at some moment of the reading. Every exchange that was '
  'completely captured when reading began is reported unchanged, and once '
  'the end of a file has been reached, it is not read any further, so bytes '
  'that arrive in the middle of a message or body are never taken for the '
  'beginning of another. (The direction of a sniffed connection must be '
  'known from the start.)',
  ['inputs', 'schedules', 'fault_sequences'],
  'Every connection, every size of its files when they are first opened, '
  'every growth after any read that found the end of a file, every read '
  'schedule and buffer size.',
  'All files of the tests are complete before they are read.',
  [ST, FR, INS],
  [('end of file is remembered', ST + ' Stream.eof, read, readline'),
   ('parsing stops at the end', FR + ' parse_streams, _parse_responses')],
  ['exchanges yielded by the input formats'],
  [('stream.eof', 'the end of the file has been seen once', ST)])

p('C21', 'An exchange is checked the same whichever way it gets in',
  'The same connection gives the same exchanges, with the same notices, in '
  'every stream format that holds both directions (streams, combined, '
  'tcpflow, tcpick): only the names of files differ. An exchange read from a '
  'stream also gives the same notices and the same reports as one that is '
  'built from its parts (scheme, start line, headers, body, trailers, '
  'remark) through the Python API, except for the notices about the framing '
  'of the captured bytes. The scheme of captured requests is http, unless '
  'the name of a combined file ends in .https or .noscheme. Only the order '
  'of notices on one message is left open.',
  ['inputs', 'configurations', 'fault_sequences'],
  'Every connection, intact or damaged, every format, every delivery of '
  'bytes and order of names.',
  'Most of the test suite knows one way in for each case, and compares only '
  'sets of notice IDs.',
  [INS, FR, 'httpolice/message.py'],
  [('codings and trailers are left in the message', FR +
    ' _parse_request_body, _parse_response_body, _parse_chunked'),
   ('scheme', INS + ' parse_combined, _parse_paths')],
  ['exchanges yielded by the input formats', 'notices', 'reports'])

# Not addressed by this technique: pure functions of one input.

p('N01', 'Header values are accepted exactly when the standards allow them',
  'A header value is flagged as malformed if and only if it does not match '
  'the grammar given for that header by the standard that defines it, and '
  'the parsed value is the one the standard assigns.',
  ['inputs'], 'Every byte string for every known header.',
  'Tests sample some valid and invalid values per header.',
  ['httpolice/syntax/rfc7230.py', 'httpolice/syntax/rfc7231.py',
   'httpolice/parse.py'],
  [('grammar', 'httpolice/syntax/'), ('Earley parser', 'httpolice/parse.py')],
  ['notices 1000 etc.'])

p('N02', 'Each notice is raised exactly under the conditions it documents',
  'Every notice in the list of notices is reported for a message if and only '
  'if the condition described in its explanation holds.',
  ['inputs'], 'Every message and exchange.',
  'One or two examples per notice.',
  ['httpolice/request.py', 'httpolice/response.py', 'httpolice/message.py',
   'httpolice/notices.xml'],
  [('checks', 'httpolice/request.py, httpolice/response.py')],
  ['notices'])

p('N03', 'HTML reports are well-formed and immune to injection',
  'No content of the input can break the structure of the HTML report or '
  'inject markup or script into it.',
  ['inputs'], 'Every byte string in every displayed part of a message.',
  'Tests only check that a report is produced.',
  ['httpolice/reports/html.py', 'httpolice/util/text.py'],
  [('escaping by Dominate', 'httpolice/reports/html.py'),
   ('printable', 'httpolice/util/text.py')],
  ['HTML report'])

p('N04', 'HAR entries are mapped faithfully to exchanges',
  'For every HAR file produced by a supported browser or proxy, the '
  'exchanges that are checked carry the method, target, status, headers and '
  'text recorded in it, with unknown parts treated as unknown.',
  ['inputs'], 'Every HAR file.',
  'A few exported files per browser.',
  ['httpolice/inputs/har.py'],
  [('field mapping', 'httpolice/inputs/har.py')],
  ['exchanges yielded'])

p('N05', 'Environment variables of gateways map to the right headers',
  'The helpers for integrating with CGI-like interfaces reconstruct from the '
  'environment exactly the header fields of the request.',
  ['inputs'], 'Every environment.',
  'A few fixed environments.',
  ['httpolice/helpers.py'],
  [('header reconstruction', 'httpolice/helpers.py')],
  ['return value'])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x) + '\n')
