"""Property catalogue: the single source of properties.jsonl and MANIFEST.json (lib/gen.py writes both)."""
P = []
def p(id, title, statement, over, qtext, why, files, mech, note='', na=None, technique=None):
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), qtext=qtext, why=why, files=files.split(), mech=mech, note=note, na=na, technique=technique))

p('C01', 'Simplified paths never climb out of the root',
  'Simplifying a non-empty path yields an absolute path that contains no "." , ".." or empty segment, resolves every ".." against the segments before it and never above the root, keeps all other segments unchanged and in order, and keeps a trailing slash exactly when the input named a directory.',
  'inputs', 'every path byte string up to the length bound (any bytes except NUL)',
  'The unit test tries a dozen fixed paths; traversal bugs sit in odd combinations of dots, slashes and spaces that only an all-inputs check covers.',
  'src/common/utils.c src/main/url_parser.rl', [('li_path_simplify', 'src/common/utils.c')])
p('C02', 'URL decoding is exact and yields no control characters',
  'Decoding a percent-encoded string replaces each well-formed %XX by its byte, drops malformed or truncated escapes, turns control characters into "_", never grows the string, and leaves it terminated with a correct length.',
  'inputs', 'every byte string up to the length bound',
  'Tests decode a few well-formed strings; the truncated and malformed escapes at each position are not sampled.',
  'src/common/utils.c', [('li_url_decode', 'src/common/utils.c')])
p('C03', 'HTML, hex and URI encodings are safe and reversible',
  'Encoding any string as HTML, hex or URI yields only characters safe in that context (HTML: no "<", ">", bare "&" or control characters; hex: only hex digits; URI: only unreserved characters or %XX), can be decoded back to exactly the input, and is appended to or replaces the destination with a correct length.',
  'inputs', 'every byte string up to the length bound, for each encoding, with and without destination',
  'Tests encode a handful of strings; safety must hold for all 255 byte values in every position.',
  'src/common/encoding.c', [('li_string_encode / li_string_encode_append', 'src/common/encoding.c')])
p('C10', 'Chunk queues neither lose, duplicate nor reorder bytes',
  'Whatever mixture of memory, string, buffer and file chunks a queue holds, moving or skipping bytes transfers exactly the requested number of bytes from the front, in order and with unchanged content, to the end of the target, and the byte counters and memory accounting of both queues stay exact.',
  'inputs histories', 'all chunk kinds, sizes, partially consumed first chunk and all requested lengths within the bound',
  'Unit tests move a few strings; combinations of chunk kinds, partial offsets and split points are not sampled.',
  'src/main/chunk.c include/lighttpd/chunk.h', [('li_chunkqueue_steal_len', 'src/main/chunk.c'), ('li_chunkqueue_skip', 'src/main/chunk.c'), ('li_chunkqueue_steal_all', 'src/main/chunk.c'), ('li_chunkqueue_steal_chunk', 'src/main/chunk.c')])
p('C18', 'Integers are rendered as their exact decimal value',
  'Appending an integer to a string (used for Content-Length and every other emitted number) appends exactly its decimal representation: correct sign, no leading zeros, all digits.',
  'inputs', 'all values in a window around zero and the 64-bit boundaries',
  'Tests print a few numbers.',
  'src/common/utils.c', [('li_string_append_int', 'src/common/utils.c')])
p('C27', 'Ids handed out by an id list are unique while in use',
  'An id list never hands out an id that is still in use, never exceeds its limit, refuses only when the limit is reached, and reports exactly the ids that were handed out and not yet released as used.',
  'histories', 'all sequences of requests and releases within the bound, after a prefix that fills the first bitmap words',
  'The unit test runs one fixed sequence; the reuse search has to be right for every release pattern.',
  'src/common/idlist.c', [('li_idlist_get', 'src/common/idlist.c'), ('li_idlist_put', 'src/common/idlist.c')])
p('C04', 'Request headers are accepted exactly when well formed, for any fragmentation',
  'However the bytes of a request arrive, the request-header parser accepts a complete well-formed HTTP header, refuses a malformed one and otherwise waits; on acceptance it has consumed exactly the header, leaving later bytes untouched, and method, target, version and every header name and (whitespace-trimmed) value are exactly the received bytes, one stored header per header line.',
  'inputs schedules', 'all byte strings of the bounded length in each section of the header (start, method, target, version, header name, value, quoted value), and delivery one byte at a time',
  'Tests send a few well-formed requests; smuggling needs odd bytes at section borders and odd packet borders.',
  'src/main/http_request_parser.rl src/main/request.c', [('li_http_request_parse', 'src/main/http_request_parser.rl')])
p('C05', 'Request body framing is unambiguous',
  'A request is accepted only if its Content-Length and Transfer-Encoding headers fix one body length: malformed, overflowing or conflicting Content-Length values, unsupported or repeated transfer codings, and GET/HEAD requests with a body are refused with an error status and the connection is closed; an accepted request uses exactly the declared length, and chunked overrides Content-Length.',
  'inputs', 'all Content-Length values of the bounded length, up to two Content-Length and Transfer-Encoding headers, all methods and versions',
  'Tests send a handful of valid lengths; request smuggling uses the values they do not send.',
  'src/main/request.c', [('li_request_validate_header', 'src/main/request.c')])
p('C06', 'Request targets are split into the right host, path and query',
  'A request target is accepted only if it is printable; raw path, decoded and simplified path, query, scheme, authority and host are exactly the corresponding parts of it, and a Host is accepted only if it is a well-formed name or address with optional port, stored in lower case without user info, port or trailing dots.',
  'inputs', 'all targets and authorities up to the length bound',
  'Tests use a few well-formed URLs; routing and access rules depend on the split being right for every target.',
  'src/main/url_parser.rl src/main/request.c', [('li_parse_raw_url', 'src/main/url_parser.rl'), ('li_parse_hostname', 'src/main/url_parser.rl')])
p('C07', 'Chunked bodies are decoded exactly and malformed framing is refused',
  'For any fragmentation of the input, decoding a chunked body outputs exactly the framed bytes in order, ends exactly after the last chunk and its trailers leaving the following bytes for the next request, and reports malformed chunk sizes, missing line ends, overflowing sizes and truncated bodies as errors.',
  'inputs schedules', 'all byte strings of the bounded length after each of the given prefixes; whole and fragmented delivery; with and without end of input',
  'Tests decode a few bodies; desynchronisation needs unusual size lines, borders or truncation.',
  'src/main/filter_chunked.c', [('li_filter_chunked_decode', 'src/main/filter_chunked.c')])
p('C08', 'Chunked encoding frames exactly the data',
  'Encoding pending data as chunked emits one chunk whose size line is the exact hexadecimal length, the unchanged data and a line end, and exactly once, when the input is closed, the terminating last chunk; nothing is lost or left in the input.',
  'inputs', 'all data lengths up to 2^62, from memory and files, closed or not',
  'Tests encode small bodies; digit and size boundaries are not sampled.',
  'src/main/filter_chunked.c', [('li_filter_chunked_encode', 'src/main/filter_chunked.c')])
p('C13', 'Byte ranges are exactly the requested ones, clipped to the file',
  'Parsing a Range header against a file size yields, in order, exactly the satisfiable ranges that were requested, clipped to the file; no range ever lies outside the file, malformed headers are reported as invalid and unsatisfiable ones are not returned.',
  'inputs', 'all Range values made of the given prefixes and N arbitrary bytes, all file sizes within the bound',
  'Tests try about ten headers; overlapping separators, empty elements and boundary numbers are not sampled.',
  'src/main/http_range_parser.rl', [('li_parse_http_range_next', 'src/main/http_range_parser.rl')])
p('C16', 'The header store keeps every header and never stores a line break',
  'Inserting, appending, overwriting and removing headers in any order keeps exactly the headers the operations define, with case-insensitive names and unchanged visible value bytes in order; lookups find a header exactly when there is one, and no stored header ever contains a CR or LF.',
  'inputs histories', 'all operation sequences, names and values within the bound',
  'Tests check a few operations on clean values; response splitting needs line breaks through each mutating operation.',
  'src/main/http_headers.c', [('li_http_header_insert / append / overwrite / remove', 'src/main/http_headers.c')])
p('C17', 'Header lists are tokenized exactly',
  'Tokenizing comma-separated header values (across all headers of that name) delivers each token exactly once, in order, with its exact bytes, including quoted strings with escapes, and stops at malformed input without delivering garbage.',
  'inputs', 'all header values up to the length bound, in one or two headers',
  'Tests cover a few lists; hop-by-hop and transfer coding decisions depend on all of them.',
  'src/main/http_headers.c', [('li_http_header_tokenizer_next', 'src/main/http_headers.c')])
p('C48', 'Connection reuse, Host and Expect follow HTTP rules',
  'A validated request keeps the connection open exactly as its version and Connection headers say; HTTP/1.1 without Host, more than one Host, a malformed host, a malformed target, "*" for anything but OPTIONS, unknown versions and unmet expectations are refused with the proper status, and every refused request closes the connection.',
  'inputs', 'every combination of version, scheme, and header values from the menu',
  'Tests cover individual headers; the decision depends on combinations.',
  'src/main/request.c', [('li_request_validate_header', 'src/main/request.c')])
p('C14', 'Response headers announce exactly how the response is delimited',
  'The response header sent to a client starts with the request\'s HTTP version and the status, contains every response header exactly once plus a Date, and ends with one empty line. It never carries both Content-Length and Transfer-Encoding; the Content-Length of a complete body is its exact length; chunked coding is used only for HTTP/1.1 and announced exactly if used; responses to HEAD and 1xx/204/304 responses carry no body; when the client could not see the end of the body otherwise the connection is closed; and the Connection header says exactly whether it stays open.',
  'inputs', 'all combinations of version, method, status class, keep-alive, body state (none, complete, unfinished) and headers already set',
  'Tests look at a few complete responses; desynchronised responses need a particular combination of method, version, status, body state and preset headers.',
  'src/main/response.c', [('li_response_send_headers', 'src/main/response.c')])
p('C19', 'Backend response headers are accepted exactly when well formed',
  'However the bytes arrive from a backend (HTTP or CGI style), the response-header parser accepts a complete well-formed header, refuses a malformed one and otherwise waits. On acceptance exactly the header (and any interim 100/102 response before it) is consumed, each header line became one header with exact name and trimmed value, and the status is that of the status line, or of the CGI Status line, or 200.',
  'inputs schedules', 'all byte strings of the bounded length in each section of the header, whole and in pieces',
  'Tests use a few well-formed backend answers; header bytes from a backend are arbitrary.',
  'src/main/http_response_parser.rl', [('li_http_response_parse', 'src/main/http_response_parser.rl')])
p('C20', 'Backend response bodies are framed exactly',
  'The body taken from a backend response is exactly what its framing headers say: decoded chunks if chunked (overriding Content-Length), else exactly Content-Length bytes, else everything until the backend closes. Malformed, overflowing or unsupported framing is an error, a body cut short is aborted rather than ended normally, transfer codings are not forwarded, and bytes stay unchanged and in order.',
  'inputs histories', 'all Content-Length values within the bound, transfer codings and Connection values from the menu, body data in up to two deliveries, with and without close',
  'Tests proxy a few well-behaved bodies; cut-short, oversized and contradictory bodies decide whether a client or cache is poisoned.',
  'src/main/stream_http_response.c', [('li_stream_http_response_handle', 'src/main/stream_http_response.c')])
p('C23', 'IP addresses and networks are parsed and matched exactly',
  'A textual IPv4 or IPv6 address, with optional netmask and port where allowed, is accepted exactly when it is well formed, yields exactly the address, netmask (or prefix length) and port written, and is rejected otherwise; nothing is taken modulo 2^32 or left uninitialised. An address lies in a network exactly when it agrees with it in all masked bits.',
  'inputs', 'all strings up to the length bound, alone and following given prefixes; all addresses and prefix lengths',
  'Tests parse a few addresses; access rules and listening sockets depend on every accepted string.',
  'src/common/ip_parsers.rl src/common/utils.c', [('li_parse_ipv4', 'src/common/ip_parsers.rl'), ('li_parse_ipv6', 'src/common/ip_parsers.rl'), ('li_ipv4_in_ipv4_net', 'src/common/utils.c')])
p('C24', 'Network lookups return the most specific matching entry',
  'Looking up an address in a radix tree returns the data of the longest inserted prefix matching it (exact lookups only an entry of exactly that length), whatever the order of insertions and removals; removing an entry removes exactly that one.',
  'inputs histories', 'all keys within the varying bit window, prefix lengths as listed per case, insertion of up to three prefixes and removal of one',
  'Tests insert fixed prefixes; splitting and merging of nodes depends on where keys differ.',
  'src/common/radix.c', [('li_radixtree_insert', 'src/common/radix.c'), ('li_radixtree_lookup', 'src/common/radix.c'), ('li_radixtree_remove', 'src/common/radix.c')])
p('C25', 'Access rules deny exactly the clients they name',
  'With access rules configured, a request is refused with status 403 exactly when the most specific rule matching the client address (IPv4 or IPv6, "all" as least specific) is a deny rule or no rule matches; otherwise it passes unchanged, and a request that already has an answer keeps it.',
  'inputs', 'all rule networks, prefix lengths and client addresses; up to two networks per list; both list orders',
  'Tests use a few fixed addresses; a security rule has to be right for every address.',
  'src/modules/mod_access.c', [('access_check', 'src/modules/mod_access.c'), ('access_check_create', 'src/modules/mod_access.c')])
p('C28', 'Timeouts fire in order, never early and never lost',
  'Elements of a wait queue time out in the order of their last activity, none before its full delay has passed and none is lost: while elements wait the timer is set for the first of them, every element leaves exactly once, and its queued state and the queue length are always right, whatever sequence of push, refresh, remove, pop, delay change and timer events happens.',
  'histories schedules', 'all operation sequences within the bound on up to three elements',
  'The unit test waits for a few timers; keep-alive and I/O timeouts depend on the links being right after every sequence.',
  'src/common/waitqueue.c', [('li_waitqueue_push', 'src/common/waitqueue.c'), ('li_waitqueue_pop', 'src/common/waitqueue.c'), ('li_waitqueue_pop_ready', 'src/common/waitqueue.c'), ('li_waitqueue_remove', 'src/common/waitqueue.c')])
p('C30', 'Pooled memory is never handed out twice',
  'Buffers from the memory pool lie completely inside mapped memory, are page aligned and never overlap another buffer still in use, for any sequence of allocations and releases; empty areas are unmapped exactly once and none that still holds a buffer.',
  'histories', 'all sequences of allocations and releases within the bound after a prefix of allocations filling a magazine',
  'The pool has no unit test, and its bitmap search only goes wrong for particular release patterns.',
  'src/common/mempool.c', [('li_mempool_alloc', 'src/common/mempool.c'), ('li_mempool_free', 'src/common/mempool.c')])
