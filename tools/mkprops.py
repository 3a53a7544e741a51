#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os

P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=['warcio/' + f for f in files],
            state=[dict(name=n, meaning=m, where='warcio/' + w) for n, m, w in state],
            mechanism=[dict(name=n, where='warcio/' + w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))

p('C01', 'Iterating an archive yields every record exactly, however it is consumed',
  'Iterating any well-formed WARC or ARC file - uncompressed or gzipped record by record, any number and mix of record kinds - yields every record exactly once, in file order, each with exactly the record headers, HTTP headers and content bytes stored in the file. '
  'What the caller does with a record before moving on - nothing, partial or full raw or decoded reads, line reads, asking for its offset or length (which reads the rest of it) - changes nothing about any other record, and each read continues exactly where the last one ended.',
  ['inputs', 'histories'], 'all archives of up to 3 records from a menu of record kinds x storage formats, and all sequences of consumption actions per record',
  'Tests iterate a handful of fixture files and either read everything or nothing; they never vary how far each record is consumed before advancing.',
  ['archiveiterator.py', 'recordloader.py', 'limitreader.py', 'bufferedreaders.py'],
  [('ArchiveIterator._iterate_records / read_to_end skip the rest of the record', 'archiveiterator.py'), ('_consume_blanklines finds the next record', 'archiveiterator.py'), ('LimitReader bounds the record stream', 'limitreader.py')],
  [('next_line', 'first line of the next record, already read', 'archiveiterator.py'), ('member_info', '(offset,length) of the current record once consumed', 'archiveiterator.py')],
  ['ArchiveIterator iteration', 'record.raw_stream', 'record.content_stream()'])

p('C02', 'Reading does not depend on block size or how the input delivers its bytes',
  'For the same archive bytes, the records, headers, contents, offsets and lengths obtained are identical whatever block size is used for reading, however short each read of the input stream is, and whether or not the input can tell its position.',
  ['inputs', 'schedules', 'configurations'], 'all block sizes from 1 to beyond the file size, all patterns of short reads of the input within a deviation bound, seekable/unseekable inputs, plain/gzip/ARC archives',
  'Tests read local files with the default 16 KiB block, so almost every fixture arrives in one or two full reads; boundary alignments and short reads are never enumerated.',
  ['bufferedreaders.py', 'archiveiterator.py', 'limitreader.py', 'statusandheaders.py'],
  [('BufferedReader._fillbuff/read/readline refill loops', 'bufferedreaders.py'), ('UnseekableYetTellable', 'archiveiterator.py'), ('rem_length() bookkeeping', 'bufferedreaders.py')],
  [('buff/buff_size', 'decompressed block being read', 'bufferedreaders.py'), ('decompressor.unused_data', 'raw bytes of the next gzip member', 'bufferedreaders.py')],
  ['ArchiveIterator over a scripted stream'])

p('C03', 'Reported offset and length locate exactly the record',
  'For every record the iterator and the index command report the offset and length of exactly that record\'s stored bytes: its whole gzip member when compressed, and when uncompressed the record without the blank lines separating it from the next. '
  'Opening the file at that offset, or just those bytes, yields the same record; the values do not depend on when or how often they are asked for or on how much was read.',
  ['inputs', 'histories'], 'all archives of up to 3 records x formats x numbers of separating blank lines x iteration starting offsets x moments of asking',
  'Tests assert fixed offsets of a few fixture files.',
  ['archiveiterator.py', 'indexer.py', 'bufferedreaders.py'],
  [('read_to_end computes offset/length from tell(), rem_length(), next_line and empty_size', 'archiveiterator.py')],
  [('offset', 'file offset of the current record', 'archiveiterator.py')],
  ['get_record_offset()', 'get_record_length()', 'warcio index -f offset,length'])

p('C04', 'Records written read back unchanged',
  'Any record built with the library (any record type, URI, WARC headers, ASCII HTTP headers given or parsed from the payload, payload bytes, kind of payload stream, known or unknown length, WARC version) and written with or without gzip, alone or after other records, reads back with the same version, type, WARC headers, content type, HTTP headers and payload bytes. '
  'How the payload is supplied (seekable or not, short reads, starting position, length given or not) does not change the written bytes.',
  ['inputs', 'configurations', 'histories'], 'record menu x payload sizes around every buffer limit x payload stream kinds x length known/unknown x gzip x version, sequences of up to 3 records',
  'Tests compare about 15 sample records with fixed expected text, payloads of a few bytes supplied as an in-memory stream.',
  ['recordbuilder.py', 'warcwriter.py', 'recordloader.py', 'statusandheaders.py'],
  [('RecordBuilder.create_warc_record', 'recordbuilder.py'), ('ensure_digest buffers unseekable or unknown-length payloads', 'recordbuilder.py'), ('_write_warc_record', 'warcwriter.py')],
  [('record.length/payload_length', 'block and payload length written as Content-Length', 'recordloader.py')],
  ['WARCWriter.write_record then ArchiveIterator'])

p('C05', 'Written records are exactly framed, self-contained and survive a crash',
  'Each written record states exactly the length of its block, ends with the two-line terminator and, with gzip on, is exactly one complete gzip member; the file is exactly the concatenation of its records. '
  'When a write call returns, the whole record has been handed to the output and flushed, so whatever prefix of the output survives a crash, every record lying completely within it reads back intact.',
  ['crash_points', 'inputs', 'histories'], 'all write histories of up to 3 records from the menu x gzip, all flush points and every byte position at which the output may be cut',
  'Tests only look at the complete output after a normal end.',
  ['warcwriter.py', 'recordbuilder.py', 'archiveiterator.py'],
  [('GzippingWrapper per record, finished by flush()', 'warcwriter.py'), ('_write_warc_record flushes the output', 'warcwriter.py')],
  [('out', 'output file or gzip wrapper', 'warcwriter.py')],
  ['writes and flushes seen by the output file object', 'ArchiveIterator over each prefix'])

p('C06', 'Digests written describe exactly the bytes written',
  'Every record the library builds and writes carries a block digest equal to the SHA-1 of the block bytes stored in the file and, except for warcinfo and revisit records, a payload digest equal to the SHA-1 of the payload after the HTTP headers, however the payload was supplied and whatever header filter is set. '
  'A digest supplied by the caller with a known length is written unchanged, and the check command accepts every file so written with correct or no supplied digests.',
  ['inputs', 'configurations'], 'record menu x payload sizes x stream kinds x known/unknown length x header filter x supplied digests x gzip',
  'Tests compare digests of a few small fixed payloads.',
  ['recordbuilder.py', 'warcwriter.py', 'utils.py'],
  [('ensure_digest', 'recordbuilder.py'), ('Digester', 'utils.py')], [],
  ['WARC-Block-Digest / WARC-Payload-Digest in the written file', 'warcio check'])

p('C07', 'Digest checking passes exactly the content that matches',
  'With digest checking on and a record read to its end by any sequence of reads, the record is reported as passed if it stores a block or payload digest and all stored ones match (any hash the platform supports, value in base16, base32 or base64), as failed if any stored digest does not match or cannot be evaluated or the record is cut short, and as unchecked if it stores none that can be judged (a revisit, a payload digest of a segment). '
  'Raise mode raises, log mode logs and goes on, each digest that does not match is reported, and the check command exits 1 exactly when some record failed or the file could not be read, naming exactly the failing records by offset and id (asked to be verbose: all records).',
  ['inputs', 'histories', 'configurations'], 'all single-byte corruptions of content and digest, truncations, digest encodings and algorithms, read patterns, checking modes, record kinds',
  'Tests corrupt two digests in one fixture and read whole records in one call.',
  ['digestverifyingreader.py', 'recordloader.py', 'checker.py'],
  [('DigestVerifyingReader._update/begin_payload', 'digestverifyingreader.py'), ('_compare_digest_rfc_3548', 'digestverifyingreader.py'), ('Checker', 'checker.py')],
  [('DigestChecker.passed', 'None, True or False', 'digestverifyingreader.py')],
  ['record.digest_checker.passed/problems', 'warcio check output and exit value'])

p('C08', 'A length-limited stream delivers exactly the bytes within its limit',
  'A length-limited reader delivers exactly the next bytes of the underlying stream up to its limit under any sequence of reads, sized reads and line reads, including zero and negative sizes, and never takes bytes beyond the limit from the underlying stream; its position is the number of bytes delivered. '
  'Limiting an already limited stream keeps the smaller limit, and a limit that is not a non-negative number leaves the stream alone.',
  ['inputs', 'histories'], 'all operation sequences up to a depth on all small data/limit combinations and short-read patterns, plus nested limits',
  'Tests make seven single calls.',
  ['limitreader.py'], [('LimitReader.read/readline/tell/wrap_stream', 'limitreader.py')], [('limit', 'bytes left', 'limitreader.py')],
  ['LimitReader'])

p('C09', 'The buffered reader behaves like a file of the decompressed bytes',
  'For plain, gzip, zlib-deflate, raw-deflate and brotli data, any block size and any splitting of the input into reads, every sequence of reads and line reads (whole, sized, zero, negative) on the buffered reader returns exactly what the same calls on an in-memory file of the decompressed bytes return, and the position is the number of bytes delivered. '
  'Data declared gzip that is not comes through unchanged; multi-member gzip stops at each member until the next is asked for, or runs straight through all members when so requested.',
  ['inputs', 'histories', 'schedules'], 'operation sequences up to a depth x data x compression x all block sizes x short-read patterns',
  'Tests make about ten calls on tiny inputs with three block sizes.',
  ['bufferedreaders.py'],
  [('_fillbuff/_decompress/read/readline/read_next_member', 'bufferedreaders.py')],
  [('buff, starting_data, num_block_read, decompressor', 'buffer and decompression state', 'bufferedreaders.py')],
  ['BufferedReader', 'DecompressingBufferedReader'])

p('C10', 'Chunked transfer coding decodes exactly',
  'Reading a valid chunked body yields exactly the concatenation of its chunks\' data, for any chunk sizes, hexadecimal spellings, chunk extensions and trailers, combined with content compression or not, however short the reads of the stream are, under any sequence of reads, and takes nothing after its end. '
  'Data that is not chunked at all comes through unchanged; a chunked body cut short yields all data present without error unless strict errors were requested, in which case it raises.',
  ['inputs', 'histories'], 'all ways to chunk small payloads x header spellings x trailers x compressions x read sequences; all truncations; all short strings over a chunk-syntax alphabet',
  'Tests decode about eight fixed strings.',
  ['bufferedreaders.py'], [('ChunkedDataReader._fillbuff/_try_decode', 'bufferedreaders.py')],
  [('all_chunks_read/not_chunked', 'decoder state', 'bufferedreaders.py')], ['ChunkedDataReader'])

p('C11', 'The content stream gives the decoded HTTP payload',
  'For every HTTP record, the content stream yields the payload with its transfer chunking and its gzip, deflate or brotli content encoding removed (header names and values in any letter case), for any payload, chunking, read sequence and surrounding records; unknown encodings and content that is not in the encoding it is labelled with pass through unchanged. '
  'The raw stream always yields the stored bytes, and the bytes after the record are never touched.',
  ['inputs', 'histories', 'configurations'], 'payloads x content encodings x chunkings x header spellings x read sequences, record followed by another record',
  'Tests decode a few fixture records with one read call.',
  ['recordloader.py', 'bufferedreaders.py'], [('ArcWarcRecord.content_stream', 'recordloader.py'), ('BufferedReader/ChunkedDataReader', 'bufferedreaders.py')], [],
  ['record.content_stream()', 'record.raw_stream'])

p('C12', 'Header collections act as an ordered case-insensitive map',
  'Looking up, testing, setting, adding and removing headers ignore the case of names, identically through dictionary syntax and through the named methods; a lookup returns the first matching value, and after setting a header a lookup returns the new value. '
  'Every operation changes only the one header it addresses: order, spelling and duplicates of all others stay as they were.',
  ['histories', 'inputs'], 'all operation sequences up to a depth over a small colliding name/value alphabet, from every reachable header list',
  'The doctest walks one sequence of ten operations.',
  ['statusandheaders.py'], [('get_header/replace_header/add_header/remove_header', 'statusandheaders.py')], [('headers', 'list of (name, value)', 'statusandheaders.py')], ['StatusAndHeaders'])

p('C13', 'Header blocks survive parsing and serialising',
  'Parsing a block made of a status or request line and header lines gives the protocol, status and all header names and values in order - values in UTF-8 or Latin-1, with or without spaces around the colon, continuation lines joined, non-header lines skipped, CRLF or LF endings - and leaves the stream at the first byte after the blank line. '
  'Serialising and parsing again gives an equal object; serialising emits each header exactly as held.',
  ['inputs'], 'all header blocks of up to 3 lines from a menu of line forms x line endings x status lines x parser configurations',
  'Tests parse about six fixed blocks.',
  ['statusandheaders.py'], [('StatusAndHeadersParser.parse', 'statusandheaders.py'), ('StatusAndHeaders.to_str/to_bytes', 'statusandheaders.py')], [], ['StatusAndHeadersParser.parse', 'to_bytes'])

p('C14', 'Non-ASCII HTTP headers are always written as one valid ASCII block',
  'Any HTTP status line and header values, whatever non-ASCII characters they hold, can be written: the stored HTTP header block is pure ASCII, keeps every header with its name and order, leaves ASCII-only headers and statuses untouched, and percent-encodes non-ASCII text as UTF-8 recoverably. '
  'The record\'s length and digests are those of the encoded block, and encoding again changes nothing.',
  ['inputs'], 'all values up to a length over an alphabet of ASCII, non-ASCII and parameter syntax characters, in header values and status lines, alone and combined',
  'Tests encode four fixed values.',
  ['statusandheaders.py', 'warcwriter.py'], [('to_ascii_bytes/percent_encode_non_ascii_headers', 'statusandheaders.py')], [('headers_buff', 'encoded block used for length and digest', 'statusandheaders.py')], ['StatusAndHeaders.to_ascii_bytes', 'written records'])

p('C15', 'Recompressing preserves every record and yields one gzip member each',
  'Recompressing any readable WARC or ARC file - uncompressed, gzipped by record, gzipped as a whole, or gzipped in members cut at any positions - produces a file with the same records in the same order, with the same types, headers and content bytes (ARC records converted to WARC), each its own gzip member, and reports their number. '
  'Recompressing the result again reproduces it byte for byte; input that cannot be read makes the command fail with exit value 1, and the input file is never changed.',
  ['inputs'], 'archives of up to 3 records x all ways to cut the bytes into gzip members x formats; unreadable inputs',
  'Tests recompress three fixtures and count records.',
  ['recompressor.py', 'archiveiterator.py', 'warcwriter.py', 'bufferedreaders.py'],
  [('Recompressor.load_and_write / decompress_and_recompress', 'recompressor.py'), ('read_all_members', 'bufferedreaders.py')], [], ['warcio recompress'])

p('C16', 'ARC records read directly or converted keep all their information',
  'Every ARC record - file header or document, URL with or without spaces, any content - reads with exactly its URL, address, date, type, length and content. '
  'Converted to WARC on reading, the same fields appear as the corresponding WARC headers (14-digit date as ISO date, file header as warcinfo with file name), the content is unchanged and written records are valid WARC.',
  ['inputs', 'configurations'], 'ARC files of up to 3 records from a menu of URL, date, type and body forms x gzip x direct/converted',
  'Tests use three ARC fixtures.',
  ['recordloader.py', 'archiveiterator.py', 'timeutils.py'], [('ARCHeadersParser / ARC2WARCHeadersParser', 'recordloader.py')], [], ['ArchiveIterator(arc2warc=...)'])

p('C17', 'The index lists each record once with its true field values',
  'The index command emits, for each input file in turn, one JSON line per record in order, containing exactly the requested fields that the record has, in the requested order, with the record\'s true values (offset, length, file name, WARC headers, HTTP status and headers), whether input is named files or standard input and output is a file or standard output.',
  ['inputs', 'configurations'], 'archives from the record menu x all field lists up to a length from the field menu x input and output kinds',
  'Tests compare the index of a few fixtures for three field lists.',
  ['indexer.py', 'cli.py', 'archiveiterator.py'], [('Indexer.process_index_entry/get_field', 'indexer.py')], [], ['warcio index'])

p('C18', 'Extract prints exactly the record at the offset',
  'For every record of an archive, extract at its offset writes its record headers, HTTP headers and raw content; with the headers option only the headers, with the payload option only the decoded payload - and never bytes of any other record, for every record kind, size and compression.',
  ['inputs', 'configurations'], 'archives from the record menu x every record x the three output modes, contents around buffer limits',
  'Tests extract three fixture records.',
  ['extractor.py', 'cli.py'], [('Extractor.extract', 'extractor.py')], [], ['warcio extract'])

p('C19', 'HTTP capture stores exactly what was sent and received',
  'For every HTTP exchange completed inside a capture context - any method, body form, response framing, response size, way of reading the response and splitting of socket reads - one response and one request record are written, response first, whose HTTP headers and bodies are exactly what was sent and received, with the requested URL, the peer address when recording it is enabled and the address is known, and a shared date. '
  'The client sees exactly the same response as without capture.',
  ['inputs', 'histories', 'schedules'], 'request forms x response framings x client read patterns x short socket reads, keep-alive sequences of exchanges',
  'Tests fetch from one local server through one client that always reads the body in one way.',
  ['capture_http.py', 'recordbuilder.py', 'warcwriter.py'],
  [('RecordingStream', 'capture_http.py'), ('RecordingHTTPConnection.send', 'capture_http.py'), ('RequestRecorder', 'capture_http.py')],
  [('request_out/response_out', 'bytes recorded so far', 'capture_http.py')], ['records written', 'http.client responses'])

p('C20', 'Capture keeps overlapping and successive exchanges apart',
  'Any interleaving of exchanges over several connections, direct, through a proxy or through a proxy tunnel, in one or in nested or successive capture contexts, records each completed exchange exactly once, in the context its connection was opened in, with its own URL, proxy information and bytes - as if it had been the only one. '
  'Connections opened outside any context are not recorded, a filter decides about exactly the pair it is given, and leaving an inner context resumes the outer one.',
  ['histories', 'inputs'], 'all interleavings of the steps (open, request, read, close) of 2-3 exchanges over connection kinds, context nestings and filters',
  'Tests run exchanges strictly one after another and never mix connection kinds in one context.',
  ['capture_http.py'], [('RequestRecorder state per exchange', 'capture_http.py'), ('capture_http sets the thread\'s recorder', 'capture_http.py')],
  [('local.recorder', 'recorder of the active context', 'capture_http.py'), ('connect_host/warc_headers', 'tunnel target and extra headers', 'capture_http.py')], ['records written'])

p('C21', 'Concurrent captures never mix or corrupt records',
  'When several threads perform exchanges at the same time, in their own capture contexts with separate or a shared writer, or over connections opened in one context, then under every scheduling each exchange is recorded exactly once, in the right writer, with its two records adjacent and intact, and threads outside any context are never recorded.',
  ['schedules'], 'all thread interleavings at source-line granularity of the library within a preemption bound, 2-3 threads with one exchange each',
  'No test runs two exchanges concurrently.',
  ['capture_http.py', 'warcwriter.py'], [('threading.local recorder', 'capture_http.py'), ('lock around write_request_response_pair', 'capture_http.py')],
  [('lock', 'serialises pair writes', 'capture_http.py')], ['records written'])

p('C22', 'Independent objects do not influence each other',
  'Using two independent readers, writers, record builders, decoders, digest checkers or header collections side by side, with their operations interleaved in any way in one thread or preemptively across threads, gives for each exactly the result it gives alone.',
  ['schedules', 'histories'], 'all operation interleavings of two objects of each kind, and all thread interleavings at source-line granularity within a preemption bound',
  'Tests use one object at a time.',
  ['archiveiterator.py', 'bufferedreaders.py', 'recordbuilder.py', 'warcwriter.py', 'statusandheaders.py', 'digestverifyingreader.py', 'limitreader.py'],
  [('all state is held per instance', 'archiveiterator.py')], [], ['results of each object'])

p('C23', 'Date conversions are exact and mutually inverse',
  'For every date from 1900 to 2999 and every time of day, converting between 14-digit timestamps, ISO dates, HTTP dates, seconds and datetimes gives the same instant, round trips are exact to the second (ISO with microseconds: to the microsecond), and the time-zone-aware variants denote the same UTC instant. '
  'A timestamp of fewer digits resolves to the latest moment it allows (a part given incompletely counts as not given), parts out of range to the nearest valid value; conversion never fails on any string of digits.',
  ['inputs'], 'every day of the years 1900-2999 x boundary times of day; every second of a day; all digit strings up to a length and all part-value combinations',
  'Doctests check about forty single values.',
  ['timeutils.py'], [('timestamp_to_datetime, iso_date_to_datetime, ...', 'timeutils.py')], [], ['warcio.timeutils'])

p('C24', 'Damaged input ends cleanly and never harms the records before it',
  'For an archive truncated at any byte or with any byte replaced, inserted or deleted, iterating and reading everything always terminates, raises nothing but the archive-load error (or, where verifying HTTP headers was asked for, the error that reports them), and delivers every record stored completely before the damage unchanged. A truncated file yields no record that does not begin in it, and of the record cut off at most a beginning.',
  ['inputs', 'crash_points'], 'all truncation points, all single-byte edits over a character menu and runs deleted, zeroed, doubled or inserted at every byte, of plain, gzip and ARC archives, in several reading configurations',
  'Tests have four damaged fixtures.',
  ['archiveiterator.py', 'recordloader.py', 'bufferedreaders.py', 'statusandheaders.py'],
  [('ArchiveLoadFailed', 'exceptions.py'), ('_detect_type_load_headers', 'recordloader.py'), ('BufferedReader._decompress', 'bufferedreaders.py')], [], ['ArchiveIterator'])

p('C25', 'Capturing to a named file never destroys what is there',
  'Capturing to a file name appends by default: whatever the file held before stays byte for byte and the new records follow it; with appending off an existing file is refused and left untouched and a new one is created. '
  'When the context ends, normally or by an exception, everything recorded is in the file, the file is closed, and capturing is off again.',
  ['histories', 'fault_sequences'], 'all sequences of up to 3 captures over append modes, file pre-states, gzip settings, and exits by exception at each step',
  'Tests append once and refuse once.',
  ['capture_http.py', 'utils.py'], [('capture_http open modes', 'capture_http.py'), ('open(...,"x")', 'utils.py')], [], ['file contents'])

p('C26', 'Built records carry the mandatory fields, and pairs are linked',
  'Every record the library builds has exactly one type, a unique record id, a date in the form its WARC version prescribes, the target URI given, the content type given or the default for its type, and revisits the profile of their version, the original\'s digest, URI and date; caller-supplied headers are kept. '
  'Writing a request with its response writes the response first, gives the request the response\'s URI and date, and links it to the response\'s id.',
  ['inputs', 'configurations'], 'record types x versions x supplied header subsets x clock values x pair combinations',
  'Tests compare fixed samples with a frozen id and date.',
  ['recordbuilder.py', 'warcwriter.py'], [('_init_warc_headers', 'recordbuilder.py'), ('write_request_response_pair', 'warcwriter.py')], [], ['record headers', 'written records'])

p('C27', 'Building, reading and writing records leaves no trace elsewhere',
  'What a record builder, writer or in-memory writer produces for a record depends only on that record\'s inputs, never on records built or written before; argument dictionaries, header lists and payload bytes supplied by the caller are not modified. '
  'Reading back an in-memory writer\'s contents at any moment, wholly or partly, neither changes what has been written nor where later records go, and getting the contents leaves a stream being read where it was.',
  ['histories'], 'all sequences up to a depth of build, write and read-back operations on one writer compared with a fresh writer per record',
  'Tests use a fresh writer per case.',
  ['recordbuilder.py', 'warcwriter.py'], [('warc_headers_dict copied per record', 'recordbuilder.py'), ('BufferWARCWriter.get_contents/get_stream', 'warcwriter.py')], [('out', 'buffer and its position', 'warcwriter.py')], ['BufferWARCWriter'])

p('C28', 'Archive formats are recognised, and what is no archive is refused',
  'WARC and ARC, uncompressed or gzipped, are told apart from the data alone; the format-specific iterators accept exactly their format, and files mixing both are read only where converting ARC to WARC was asked for. '
  'A file that is neither, or data that is no record following the records of an archive, raises the archive-load error after the records before it and never passes for a record; a gzip member holding several records at the end of a file is reported as not chunked; an empty file holds no records.',
  ['inputs', 'configurations'], 'all sequences of up to 3 records of both formats x every division into gzip members x iterator classes and options, with every junk file and junk tail of a menu',
  'Tests open each fixture with the iterator that fits it and two files with the wrong one.',
  ['archiveiterator.py', 'recordloader.py', 'bufferedreaders.py'],
  [('_detect_type_load_headers', 'recordloader.py'), ('known_format / mixed_arc_warc', 'archiveiterator.py'), ('_raise_invalid_gzip_err', 'archiveiterator.py')],
  [('known_format', 'format of the records so far', 'archiveiterator.py')], ['ArchiveIterator', 'WARCIterator', 'ARCIterator'])

p('C29', 'Reading options change only what they name',
  'Reading without parsing, ensuring HTTP headers, verifying the HTTP status line, converting ARC records, checking digests and choosing a block size each change exactly what they name, in every combination: the sequence of records, and every other header, length and content byte, stay the same. '
  'Only records that can have HTTP headers are parsed for them; a target URI in angle brackets or with spaces is repaired; a record with an unusable length is empty, one without a length extends to the end of its file or gzip member.',
  ['configurations', 'inputs'], 'all combinations of six options x every kind of record, alone and between others, with unusual status lines, URIs and lengths',
  'Tests switch on one option at a time for one or two fixtures.',
  ['archiveiterator.py', 'recordloader.py', 'statusandheaders.py', 'digestverifyingreader.py'],
  [('parse_record_stream', 'recordloader.py'), ('load_http_headers', 'recordloader.py'), ('default_http_headers', 'recordloader.py'), ('_ensure_target_uri_format', 'recordloader.py')],
  [], ['ArchiveIterator with options'])

p('C30', 'Status lines and header blocks are built, compared and validated exactly',
  'The status code of a header block is the first word of its status line; validating replaces exactly the status lines that do not start with a positive number; making a block a partial response sets status 206, Content-Range, Content-Length and Accept-Ranges and nothing else. '
  'Two header blocks are equal exactly if protocol, status line and header list are; headers may be given as lists, tuples or dictionaries of text or bytes, and the argument is not modified.',
  ['inputs'], 'all status lines over an alphabet up to a length, all ranges and header lists of a menu, all pairs of small blocks, all forms of arguments',
  'Tests have four status lines, one range and two comparisons.',
  ['statusandheaders.py'],
  [('StatusAndHeaders.get_statuscode/validate_statusline/add_range/__eq__', 'statusandheaders.py')],
  [('headers', 'list of (name, value)', 'statusandheaders.py')], ['StatusAndHeaders'])

p('C31', 'Reading is one forward pass that never waits for data it does not need',
  'Reading an archive takes from the input each byte once and in order, by reads of the block size, and needs neither seeking nor anything but read. The library never reads on while the bytes already taken suffice: a record is delivered as soon as its headers have arrived, and its contents as soon as they (of chunked contents: the chunk) have, so that pipes, sockets and archives of any size can be read. '
  'Writing uses only write and flush of the output.',
  ['schedules', 'inputs'], 'all archives of up to 3 records of a menu x deliveries of the input (byte by byte, capped, cut at every position) x consumption of each record x options, judged at every step',
  'Tests read files, where reading too early or too much goes unnoticed.',
  ['archiveiterator.py', 'bufferedreaders.py', 'limitreader.py', 'recordloader.py', 'warcwriter.py'],
  [('BufferedReader._fillbuff reads only when empty', 'bufferedreaders.py'), ('LimitReader bounds every read', 'limitreader.py'), ('_consume_blanklines only when the next record is asked for', 'archiveiterator.py')],
  [('buff', 'data taken from the input but not delivered', 'bufferedreaders.py')], ['calls on the input stream'])

p('C32', 'Failures of inputs and outputs surface and damage nothing else',
  'When a read of an archive or of a payload, or a write or flush of the output fails, that very error reaches the caller (the commands exit with an error), and no record is reported complete that is not. '
  'Records read or written before stay intact; of the record being written at most a beginning is in the output, nothing if its payload failed when read for the first time; records written afterwards are whole.',
  ['fault_sequences', 'histories'], 'every read, write and flush of a bounded run made to fail in turn with each of 11 exceptions; every limit on the size of the files written',
  'No test makes an input or output fail.',
  ['archiveiterator.py', 'bufferedreaders.py', 'recordloader.py', 'recordbuilder.py', 'warcwriter.py', 'indexer.py', 'recompressor.py'],
  [('ensure_digest reads the payload before anything is written', 'recordbuilder.py'), ('only EOFError ends iteration', 'archiveiterator.py'), ('GzippingWrapper is made per record', 'warcwriter.py')],
  [], ['exceptions', 'output bytes', 'exit status'])

p('C33', 'Whoever opens a file closes it, and nobody else',
  'Every file the library opens by name or for its own use - inputs and outputs of commands, files captured to, temporary files - is closed when the command, the capture context, the write or the exchange that opened it ends, of commands and captures also when by an error, so that any number of them can follow. '
  'A stream supplied by the caller - archive, payload, output, standard input, output and error - is not closed by reading, iterating, writing, capturing or a command; only closing a reader closes the stream it wraps.',
  ['inputs', 'fault_sequences', 'histories'], 'all commands x archives x cuts and output limits, records x payload streams x failing operations, readers x operations, captured exchanges x stage they end at, the open descriptors counted',
  'Tests never look at open files, and leave most to the garbage collector.',
  ['utils.py', 'recordbuilder.py', 'warcwriter.py', 'capture_http.py', 'bufferedreaders.py', 'limitreader.py', 'archiveiterator.py', 'recompressor.py'],
  [('fsspec_open closes what it opened only', 'utils.py'), ('ensure_digest/_write_warc_record: the temporary file is closed, the original stream put back', 'warcwriter.py'), ('RequestRecorder.done closes its buffers', 'capture_http.py'), ('BufferedReader.close', 'bufferedreaders.py')],
  [('_orig_stream', 'stream of the caller while a temporary file replaces it', 'recordbuilder.py')], ['open descriptors', 'ResourceWarning', 'close() calls on streams supplied'])

p('C34', 'Data of any size is processed in little memory',
  'Records, payloads, exchanges and archives of any size and number are read, skipped, decoded, checked, written, captured, indexed, extracted and recompressed in memory that does not grow with them, as long as the caller reads in pieces, and nothing of them is kept afterwards. '
  'Held whole are only lines, header blocks, the chunk being decoded, what one block of compressed input expands to, and what the caller holds; payloads of unknown length, captured requests and responses and the contents of an in-memory writer go to temporary files once they are large.',
  ['inputs', 'sizes'], 'all kinds of record x storage x ways of reading x options, records x payload streams x writers, exchanges x captures x ways of reading, commands x archives, each at two sizes and two numbers of records, with all allocations traced',
  'Tests use small records; reading all at once passes every one of them.',
  ['bufferedreaders.py', 'limitreader.py', 'archiveiterator.py', 'digestverifyingreader.py', 'recordbuilder.py', 'warcwriter.py', 'capture_http.py', 'extractor.py', 'checker.py', 'recompressor.py'],
  [('read_to_end/_iter_stream read by blocks', 'archiveiterator.py'), ('SpooledTemporaryFile for payloads, exchanges and in-memory writers', 'recordbuilder.py'), ('extract, check and recompress copy by pieces', 'extractor.py')],
  [('buff', 'the block being delivered', 'bufferedreaders.py')], ['traced memory: most needed and kept'])

p('C35', 'Commands take any file name, text and output encoding',
  'What a command does, its exit status and every byte of the files it writes depend on what its inputs hold, not on how the inputs or the output are named (with any characters, also ones not decodable or special to shells, formats and patterns), and not on the encoding of standard output. '
  'Names, record ids and messages are shown exactly, with only the characters that the output encoding lacks escaped; the filename field of an index is the last component of the name given.',
  ['inputs', 'environment'], 'all commands x names of input and output x encodings of standard output x archives, good and bad, with texts of every script',
  'Tests run the commands on ASCII names with an output that takes everything.',
  ['cli.py', 'checker.py', 'recompressor.py', 'indexer.py', 'extractor.py', 'utils.py'],
  [('main makes the output escape what it cannot encode', 'cli.py'), ('basename in get_field', 'indexer.py'), ('messages formatted with the names', 'recompressor.py')],
  [], ['standard output', 'exit status', 'files written'])

p('C36', 'How the Python process is run changes nothing',
  'What is read, written, decoded, converted, printed and captured is the same whatever way the process is run: with assertions and docstrings left out (python -O, -OO), any hash seed, time zone, locale or text encoding, '
  'in UTF-8, isolated or development mode, with standard input or standard error closed, with any working directory (even a removed one), whichever module is imported first, in the main or another thread, in a forked child, a coroutine, '
  'and whenever garbage is collected.',
  ['environment', 'configurations'], 'all ways of running the process which differ from the plain one in up to 2 (thorough: 3) of 8 respects x a battery of everything the library does',
  'Tests run in one process in one environment, with assertions on and all standard streams open.',
  ['recordbuilder.py', 'bufferedreaders.py', 'statusandheaders.py', 'archiveiterator.py', 'digestverifyingreader.py', 'timeutils.py', 'capture_http.py', 'cli.py'],
  [('ensure_digest buffers records of unknown length', 'recordbuilder.py'), ('_try_decode rejects what is no chunk header', 'bufferedreaders.py'), ('messages to stderr, if there is one', 'archiveiterator.py'), ('UTC calendar arithmetic', 'timeutils.py')],
  [], ['records read', 'bytes written', 'standard output', 'exit status', 'dates'])

p('C37', 'The commands work on any address as on local files',
  'index, check, recompress and extract take as input and output any address fsspec opens - paths, file:, memory:, a member of a zip, data:, through a cache, a remote file read in blocks - '
  'and print, write and exit the same as for the same bytes in a local file; what they open they close, and the output is complete when they end. '
  'A failure of the remote file ends the command with an error, not as success with less output. Recompressing a file to itself, under whatever two addresses, is refused and leaves it as it was; a different file of the same name is not refused.',
  ['commands', 'remote files'], 'all commands x archives x forms of address of input and output; all pairs of addresses of one file; a failure at each operation on the remote file',
  'Tests use local paths and one mocked url.',
  ['utils.py', 'cli.py', 'indexer.py', 'checker.py', 'recompressor.py', 'extractor.py'],
  [('fsspec_open closes what it opens and falls back to local files', 'utils.py'), ('recompressing a file to itself is refused', 'recompressor.py'), ('the input may not support what a local file does', 'cli.py')],
  [], ['standard output', 'bytes written', 'exit status', 'remote operations'])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, (x['id'], len(x['title']))
        f.write(json.dumps(x) + '\n')
print(len(P), 'properties')
