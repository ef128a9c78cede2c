#!/usr/bin/env python3
# Writes ../properties.jsonl (kept as a script so that the text stays reviewable).
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(qtext.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mechanism],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "Lookup returns the most specific network that was written",
 """For any set of networks, each with a country code, ASN and flags, added to a writer before it is first written and
 then written out (through any mix of short file writes, and again after a failed write attempt), looking up any IPv4 or IPv6 address
 in the reopened database yields a network that contains the address and carries the properties of the most specific
 added network of the address's own family that contains it. Where no added network of that family contains the
 address, the lookup reports 'not found' and not an error. The order of insertion, nesting, adjacency, merging of
 equal neighbours and removal of redundant subnets must never change an answer.""",
 ["histories", "inputs", "fault_sequences"],
 "every history of adding and modifying networks, writing (with failed and retried writes) and reopening, and every address",
 """The tests look up a handful of addresses in one or two small databases; they never look up between a subnet and its
 supernet, at /0, /32 or /128, after a failed write, or in a tree with thousands of nested and merged networks.""",
 ["src/writer.c", "src/network-tree.c", "src/database.c", "src/network.c", "src/network-list.c"],
 [("radix tree of networks with dedup, merge and pruning before it is written", "src/network-tree.c:loc_network_tree_cleanup"),
  ("breadth-first serialisation of nodes and networks", "src/writer.c:loc_database_write_networks"),
  ("walk down the tree, falling back to the closest enclosing leaf", "src/database.c:__loc_database_lookup")],
 [("network tree", "in-memory binary tree, one leaf per network", "src/network-tree.c"),
  ("node/network sections", "the same tree in the file, indices in network byte order", "src/libloc/format.h")],
 ["loc_database_lookup", "loc_database_lookup_from_string", "Database.lookup (Python)"])

prop("C02", "AS, country and metadata catalogue survives the round trip",
 """Every AS (number, name) and every country (code, continent, name) added to a writer in any order is found again by
 number or code in the written-and-reopened database with exactly the values it had when it was written, anything that
 was not added is reported as absent, and vendor, description and license read back unchanged. The creation time equals
 the clock at the moment of writing. None of this depends on the insertion order, on shared, repeated, empty or very long
 strings, on the number of entries, or on transient file errors that were retried.""",
 ["histories", "inputs", "fault_sequences"],
 "every catalogue, insertion order, string content, clock value and history of writes and reopens",
 """The tests add two or three entries that happen to be in sorted order, with short strings, and never look up a
 missing neighbour or write under a controlled clock.""",
 ["src/writer.c", "src/stringpool.c", "src/as.c", "src/as-list.c", "src/country.c", "src/country-list.c", "src/database.c"],
 [("sorted sections searched by binary search", "src/database.c:loc_database_get_as, loc_database_get_country"),
  ("deduplicating string pool", "src/stringpool.c:loc_stringpool_add"),
  ("creation time taken from time()", "src/writer.c:loc_writer_write")],
 [("string pool", "all strings of the file, referenced by offset", "src/stringpool.c")],
 ["loc_database_get_as", "loc_database_get_country", "loc_database_get_vendor/description/license", "loc_database_created_at"])

prop("C03", "Enumeration yields every matching entry exactly once, in order",
 """Enumerating networks, ASes or countries of a database returns every entry that matches the filters exactly once, in
 ascending order (a network before its subnets), and then ends: networks match if their family is the requested one and,
 when any country, ASN or flag filter is set, at least one of those matches; ASes match if their name contains the search
 string ignoring case. Any number of enumerators and lookups on the same database may be interleaved and abandoned at any
 point without influencing each other, and an enumeration never returns a network that cannot be derived from the
 networks written (one that was added, or the union of two equal-property halves).""",
 ["schedules", "histories", "inputs"],
 "every database, filter combination and interleaving of enumerator steps, lookups, early releases and restarts",
 """The tests run one enumerator at a time to completion over a tiny database, with at most one filter.""",
 ["src/database.c", "src/network-list.c", "src/country-list.c", "src/as-list.c"],
 [("depth-first search with an explicit stack", "src/database.c:__loc_database_enumerator_next_network"),
  ("filter evaluation", "src/database.c:loc_database_enumerator_match_network"),
  ("AS and country cursors", "src/database.c:loc_database_enumerator_next_as, loc_database_enumerator_next_country")],
 [("enumerator", "private cursor holding a reference to its database", "src/database.c:struct loc_database_enumerator")],
 ["loc_database_enumerator_next_network/next_as/next_country", "Database.networks/ases/countries/search_networks/search_as"])

prop("C04", "Flattened enumeration partitions the address space exactly",
 """A flattened enumeration returns networks that never overlap and that together cover exactly those addresses whose
 lookup yields a network matching the filters; every returned network carries the country, ASN and flags that a lookup of
 any of its addresses yields. This holds for any nesting depth and any filter, and while other enumerators run
 interleaved on the same database. (IPv6 networks inside or enclosing ::/64, the range into which IPv4 is embedded, are
 out of scope.)""",
 ["histories", "schedules", "inputs"],
 "every database and filter, every interleaving of several enumerators, every address",
 "The tests flatten one small example with a single level of nesting and compare a list.",
 ["src/database.c", "src/network.c", "src/network-list.c"],
 [("subnets are collected, excluded from their parent, and pushed back", "src/database.c:__loc_database_enumerator_next_network_flattened"),
  ("exclusion of subnets", "src/network.c:loc_network_exclude_list")],
 [], ["loc_database_enumerator_next_network with LOC_DB_ENUMERATOR_FLAGS_FLATTEN", "Database.networks_flattened", "location export"])

prop("C05", "Bogon enumeration is the exact complement of the known networks",
 """For each address family that has at least one network with a country code, the bogon enumeration returns
 non-overlapping networks of that family that together contain exactly the addresses not covered by any network with a
 country code. This includes gaps of a single address, gaps at the very start and end of the address space, gaps whose
 bounds are not aligned, and gaps next to nested networks. (IPv6 networks inside or enclosing ::/64, the range into
 which IPv4 is embedded, are out of scope.)""",
 ["histories", "inputs", "schedules"],
 "every database, every address, interleaved with any other use of the database",
 "The tests check a few gaps between hand-picked, aligned networks.",
 ["src/database.c", "src/network-list.c", "src/address.c"],
 [("gap tracking per family", "src/database.c:__loc_database_enumerator_next_bogon"),
  ("splitting an address range into networks", "src/network-list.c:loc_network_list_summarize")],
 [], ["loc_database_enumerator_next_network in LOC_DB_ENUMERATE_BOGONS mode", "Database.list_bogons"])

prop("C06", "A successful write means a complete database; failures are reported",
 """If writing a database reports success and the file can be flushed and closed, the file contains the complete database:
 it opens, verifies against every key it was signed with, and answers as the model of everything added demands. If any file
 write, seek, flush, read-back or signing step fails or the disk is full, the write reports an error; it always terminates
 within work proportional to the database, never crashes, and the same writer can then be used again: a later write without
 faults succeeds with the complete content.""",
 ["fault_sequences", "histories"],
 "every placement and combination of I/O errors, short and interrupted writes, full disks, failing crypto calls and retries",
 "The tests only write to healthy temporary files and never inject a failing write, seek, read or signature.",
 ["src/writer.c", "src/stringpool.c", "src/python/writer.c"],
 [("sections written one after another, header last", "src/writer.c:loc_writer_write"),
  ("read back of the file to sign it", "src/writer.c:loc_writer_create_signature")],
 [("file image", "what the simulated disk holds", "FILE* passed to loc_writer_write")],
 ["return value of loc_writer_write, fclose", "the file content", "Writer.write (Python)"])

prop("C07", "Verification succeeds exactly for intact, correctly signed files",
 """Verifying an opened database with a public key succeeds if the file is byte for byte what the writer produced outside
 the two signature fields and one of the two signatures was made by the matching private key, whichever slot it is in and
 whatever the type of the other key. It never succeeds if any other byte was changed, truncated, appended, torn or lost,
 if the file is unsigned or signed by other keys only, or if reading the file or a crypto step failed half way. It always
 terminates, and gives the right answer again when repeated after the fault is gone.""",
 ["crash_points", "fault_sequences", "inputs"],
 "every single- and multi-byte damage, every crash image of a write, every read or crypto fault and key combination",
 "The tests verify two untouched files with one key type and never damage a file or fail a read.",
 ["src/database.c", "src/writer.c"],
 [("digest over the file with blanked signatures", "src/database.c:loc_database_verify"),
  ("two signature slots", "src/libloc/format.h:loc_database_header_v1")],
 [("signature1/signature2", "slots in the header", "src/libloc/format.h")],
 ["loc_database_verify", "Database.verify (Python)", "location verify"])

prop("C08", "Damaged or hostile files never crash, hang or leak memory contents",
 """Opening and using any file content whatsoever - a database truncated, torn, bit-flipped, overwritten with stale
 or random data, or with arbitrary header offsets, lengths, tree links and string references - ends in an error or in some answer
 after a bounded amount of work: no memory outside the file's own bytes and the library's own objects is read or written,
 no crash, no endless loop or unbounded recursion, and nothing stays allocated after everything is released.""",
 ["inputs", "crash_points", "fault_sequences"],
 "every file content reachable by crashes, torn writes, bit rot or an attacker, and every sequence of operations on it",
 "No test opens a damaged file apart from one that is not a database at all.",
 ["src/database.c", "src/stringpool.c", "src/as.c", "src/country.c", "src/network.c"],
 [("boundary checks before each access of the mapping", "src/database.c:__loc_database_check_boundaries"),
  ("index checks", "src/database.c:loc_database_fetch_as, loc_database_fetch_network, loc_database_fetch_country"),
  ("bounds of string references", "src/stringpool.c:loc_stringpool_get")],
 [], ["every reading function of the public API"])

prop("C09", "Out of memory or failing calls give an error, never wrong results",
 """When any memory allocation or system call made by the library fails, the public function in progress reports an
 error or still delivers its correct result: it does not crash, does not hang, does not report success with missing or wrong
 content, and does not lose memory, file descriptors or mappings. Objects that existed before remain usable and
 unchanged, and the same call succeeds once the failure is gone (an enumeration that was interrupted by an error has to be started again).""",
 ["fault_sequences", "histories"],
 "every placement of allocation and system call failures in every history of API calls",
 "The tests never fail an allocation or system call.",
 ["src/database.c", "src/writer.c", "src/network.c", "src/network-list.c", "src/network-tree.c", "src/stringpool.c",
  "src/as.c", "src/as-list.c", "src/country.c", "src/country-list.c", "src/libloc.c"],
 [("error returns and cleanup labels in each constructor and list operation", "src/*.c")],
 [], ["return values and errno of all public functions", "allocator, descriptor and mapping balance"])

prop("C10", "Objects stay valid in any release order and nothing is left behind",
 """Contexts, databases, enumerators, lists, networks, ASes, countries and writers may be released in any order and each
 remains fully usable until its own last reference is dropped, whatever was released before it and even after the caller
 closed or moved the position of the stream a database was opened from, or the file's name was replaced by another database. Once every
 reference is dropped, all memory, file descriptors and mappings have been released exactly once.""",
 ["histories", "schedules"],
 "every history of create, ref, use and release in any order",
 "The tests create and release objects in one fixed, nested order and do not account for resources.",
 ["src/libloc.c", "src/database.c", "src/writer.c", "src/network.c", "src/network-list.c", "src/as.c", "src/as-list.c",
  "src/country.c", "src/country-list.c", "src/network-tree.c"],
 [("reference counts", "*_ref/*_unref of every type"),
  ("the database keeps a duplicate of the caller's file and its own mapping", "src/database.c:loc_database_clone_handle, loc_database_mmap")],
 [], ["public API; allocator, descriptor and mapping balance"])

prop("C11", "DNS discovery reports the published time or an error, for any reply",
 """Asking DNS for the newest database version returns the exact time published in a well-formed TXT answer, whether
 the record is given directly or behind a chain of CNAME records, and reports an error for everything else: no answer, refused, timed
 out, cut off or malformed replies, wrong record types, or text that is not a complete timestamp. No reply content can make it read
 or write outside the reply, crash, hang or return a time that no TXT record in the reply contains.""",
 ["inputs", "fault_sequences"],
 "every sequence of resolver outcomes and every reply content",
 "No test reaches the resolver; there is no network in the test environment.",
 ["src/resolv.c", "src/python/locationmodule.c"],
 [("walk over the answer section with dn_expand and length checks", "src/resolv.c:loc_discover_latest_version"),
  ("timestamp parsing", "src/resolv.c:parse_timestamp")],
 [], ["loc_discover_latest_version", "location.discover_latest_version (Python)"])

prop("C12", "Updating the database file is atomic under crashes and readers",
 """At every instant of an update, and after a crash, kill or power loss at any point of it, the configured database path holds
 either the complete previous database or the complete new one - never a missing, partial, mixed or (to any user) unreadable file. A process that
 opened the database before the update keeps reading the old content unchanged, and one that opens it afterwards gets the
 new content; an update that ends in failure leaves the previous file untouched.""",
 ["crash_points", "schedules", "fault_sequences"],
 "every crash point and I/O fault during an update, with readers opening and reading at any moment",
 "No test runs the update at all: it needs mirrors, DNS and a clock.",
 ["src/python/location/downloader.py", "src/scripts/location.in"],
 [("download into a temporary file in the same directory, verify, then rename", "src/python/location/downloader.py:Downloader.download, src/scripts/location.in:handle_update")],
 [("database.db", "the configured database path", "location --database"),
  ("temporary file", "NamedTemporaryFile in the same directory", "src/python/location/downloader.py")],
 ["the database path on disk", "exit status of 'location update'"])

prop("C13", "An update never installs an unauthenticated, damaged or older database",
 """An update installs a file only if it carries a valid signature of the trusted key over its complete content and it is not
 older than the version announced by DNS or than the database that was installed when the update started, no matter what the mirrors, caches or resolver
 return: wrong, stale, replayed, truncated, corrupted or maliciously crafted content, redirects, or any mixture over several
 mirrors and attempts. When nothing acceptable is offered the update fails and the installed database stays as it is.""",
 ["inputs", "fault_sequences", "histories"],
 "every sequence of mirror and resolver behaviours over any history of updates",
 "No test simulates a mirror or the resolver.",
 ["src/python/location/downloader.py", "src/scripts/location.in", "src/database.c"],
 [("signature and timestamp check before the rename", "src/python/location/downloader.py:Downloader._check_database"),
  ("comparison with the current database", "src/scripts/location.in:handle_update")],
 [], ["the database path on disk", "exit status of 'location update'"])

prop("C14", "An update succeeds if any mirror is healthy, and never leaves litter",
 """As long as at least one of the mirrors tried serves a current and correctly signed database, the update
 succeeds within one pass over the mirrors, however the others fail before it: refused, reset or stalled connections, HTTP
 errors, redirects loops, incomplete, corrupt, stale or badly signed bodies. This is also true if the mirrors can only be reached through the proxies that
 the environment names (http_proxy, https_proxy or both, with or without credentials, except for what no_proxy lists). Whatever the outcome, the update ends within a bounded
 time (if no mirror sends endless data), its exit status is zero only if a new database was installed or the installed one already is the newest, and,
 unless it was killed, no temporary file is left in the database directory.""",
 ["fault_sequences", "schedules"],
 "every assignment of failures to mirrors and every order in which they are tried",
 "No test simulates a mirror.",
 ["src/python/location/downloader.py", "src/scripts/location.in"],
 [("loop over shuffled mirrors, truncating the temporary file for each attempt", "src/python/location/downloader.py:Downloader.download")],
 [], ["exit status of 'location update'", "directory listing"])

prop("C15", "The update interval is honoured for any clock",
 """With '--cron daily', 'weekly' or 'monthly' an update contacts nobody as long as the installed database is younger
 than that interval (1, 7 or 30 days; a database created in the future counts as young), and does try once it is older, at any
 clock value, time zone and daylight-saving change, and after clock jumps; without the option it always tries. An update
 which finds that the installed database is already the newest one contacts no mirror, changes nothing and reports no failure.""",
 ["configurations", "histories"],
 "every clock value, zone, jump and installed creation time",
 "No test runs the update or controls the clock.",
 ["src/scripts/location.in"],
 [("comparison of the creation time plus interval with the current time", "src/scripts/location.in:handle_update")],
 [], ["requests made by 'location update'", "exit status"])

prop("C16", "Exports contain exactly the database's networks, or report failure",
 """An export in any format writes, for each selected country, ASN or special category and each family, exactly the set of
 addresses that lookups in the database assign to it, and loads as a well-formed set of its format. If any output cannot be completely
 written - full disk, I/O error, interrupted or failing close - the export fails visibly and never ends with success and incomplete
 output.""",
 ["fault_sequences", "inputs", "histories"],
 "every database, selection and output format, and every placement of file system faults",
 "No test runs an export on a database with special categories or faults; the one export test compares a listing.",
 ["src/python/location/export.py", "src/scripts/location.in", "src/python/location/database.py"],
 [("one writer per selected set fed from a flattened enumeration", "src/python/location/export.py:Exporter.export")],
 [], ["files written by 'location export'", "its standard output and exit status"])

prop("C17", "Independent use in several threads does not interfere",
 """Threads that each use their own context, databases, enumerators, writers and networks obtain the same results as they
 would alone, including address and network strings, under every interleaving; nothing is shared between them by the
 library that could be corrupted.""",
 ["schedules"],
 "every interleaving, at the granularity of single memory accesses, of the threads' API calls",
 "The tests are single threaded.",
 ["src/address.c", "src/network.c", "src/database.c", "src/libloc.c", "src/resolv.c", "src/as.c", "src/country.c"],
 [("per-object state, no global mutable state besides string buffers", "src/address.c:loc_address_str"),],
 [("static string buffers", "returned by the to-string functions", "src/address.c")],
 ["results of every public function"])

prop("C18", "Address, subnet and reverse-pointer arithmetic is exact",
 """For every address and network, parsing and printing round-trip, the first and last address, prefix, membership, overlap,
 subnet splitting, exclusion and reverse pointer names are mathematically exact for both families.""",
 ["inputs"],
 "every address and prefix",
 "The tests sample a few dozen addresses.",
 ["src/address.c", "src/network.c", "src/libloc/address.h"],
 [("bit arithmetic on 128 bit addresses", "src/libloc/address.h")],
 [], ["loc_network_* and loc_address_* functions"])

prop("C19", "The command line tool prints what the database contains, or fails",
 """For every database and argument, 'location lookup', 'get-as', 'search-as', 'list-countries', 'list-networks-by-as/-cc/-flags',
 'list-bogons', 'dump', 'version' and 'verify' answer exactly what the database contains: the properties of the most specific network
 for every address, every matching AS and country with its name, and lists and dumps which describe exactly the networks that match, for
 all AS numbers up to 2^32-1 and in every output format. Exit status zero means that everything asked for was found and completely written;
 if the output cannot be written - full disk, I/O error, broken pipe, failing close - the tool ends with a non-zero status.""",
 ["fault_sequences", "inputs", "histories"],
 "every database, query and placement of output failures",
 "The tests run a handful of queries on one small database and never fail any output.",
 ["src/scripts/location.in", "src/python/database.c", "src/python/network.c", "src/python/as.c", "src/python/country.c", "src/python/location/export.py"],
 [("handlers of the sub-commands", "src/scripts/location.in:CLI"), ("iterators and getters", "src/python/database.c")],
 [], ["standard output, output files and exit status of 'location'"])

prop("C20", "Importing a source replaces its data completely or not at all",
 """For every content of the sources and every failure - servers that refuse, stall, reset, redirect, cut off or damage what they send, a routing
 daemon that disconnects or reports errors, a database that fails a statement, drops the connection or the importer being killed at any point -
 every committed state of the importer's tables contains for each source (registry, feed, geofeed, override files, list of countries, routing table) either
 exactly what it contained before or exactly what the source has served, parsed and filtered as specified (usable networks only, public AS numbers
 up to 2^32-1, the first valid country, the most specific entry wins). One failing source does not affect any other. A failure is reported: by the exit status or, for a geofeed,
 by its recorded status, and a source that could not be read completely is never recorded as up to date. Every import ends: servers and Bird which stall or
 disconnect cannot make it wait forever.""",
 ["fault_sequences", "crash_points", "schedules", "histories", "inputs"],
 "every sequence of imports, content, interleaving of concurrent downloads and placement of network, database and crash faults",
 "The importer has no tests at all.",
 ["src/scripts/location-importer.in", "src/python/location/database.py", "src/python/location/downloader.py"],
 [("transactions per source", "src/scripts/location-importer.in:_process_source"), ("transactions per feed and geofeed", "src/scripts/location-importer.in:_process_feed"),
  ("one connection per task", "src/python/location/database.py:Connection.connection"), ("downloads", "src/python/location/downloader.py:Downloader.retrieve")],
 [], ["committed tables", "exit status of 'location-importer'", "geofeeds.status"])

prop("C21", "The compiled database says what the importer's tables say",
 """For every content of the tables, 'location-importer write' creates a database that contains exactly the networks known to announcements, registries, feeds, geofeeds and overrides,
 where each network has the AS of the most specific announcement that covers it, the country of the most specific entry of the registries, replaced by geofeeds (only
 within the networks a geofeed is responsible for), network feeds, AS feeds, network overrides and AS overrides in this order, and the flags of the last of these which
 decides about them; with the names of all ASes (overrides win), all countries, the metadata and valid signatures of exactly the given keys. Compiling never modifies the tables. Exit status zero means that the file is complete; if the database server
 or the disk fails or a key is unusable, the exit status is not zero.""",
 ["fault_sequences", "crash_points", "inputs"],
 "every content of the tables and every placement of database and disk faults",
 "The importer has no tests at all.",
 ["src/scripts/location-importer.in", "src/python/writer.c", "src/writer.c", "src/python/location/database.py"],
 [("query that merges all sources", "src/scripts/location-importer.in:handle_write")],
 [], ["the database file", "exit status of 'location-importer write'"])

prop("C22", "Bindings for Lua, Perl and Python answer rightly, fail visibly and leak nothing",
 """For every program in Lua, Perl or Python and every database: whatever the bindings return - networks, ASes, countries, metadata, signatures' validity, lists, searches, derived and newly written objects - is exactly
 what the database or the object contains, with all AS numbers up to 2^32-1 and with missing values as nil, undef, None or an empty string. Objects stay valid and unchanged for as long as the program
 holds them, no matter when the garbage collector runs and in which order databases, lists and objects are released. Invalid arguments raise an ordinary error (in Python no SystemError).
 If memory, a file, a descriptor or a mapping cannot be had, the call raises an error or gives the right answer; it never claims that something which exists is unknown, and it works again when it is repeated. Nothing crashes,
 and when all objects have been released, no memory, file, descriptor or mapping is left behind.""",
 ["schedules", "fault_sequences", "histories", "inputs"],
 "every program, order of release, instant of garbage collection and placement of failing resources",
 "The tests of the bindings run a few lines each on one good database: no collection in between, no failure, no check for leaks, no AS number above 2^31.",
 ["src/lua/database.c", "src/lua/network.c", "src/lua/as.c", "src/lua/country.c", "src/lua/location.c", "src/perl/Location.xs", "src/python/database.c", "src/python/network.c", "src/python/as.c", "src/python/country.c", "src/python/writer.c"],
 [("Lua objects and their finalizers", "src/lua/network.c:create_network"), ("Python enumerators and searches", "src/python/database.c:Database_search_networks"), ("writer", "src/python/writer.c:Writer_init"), ("Perl functions", "src/perl/Location.xs")],
 [], ["return values and errors of the three modules", "live memory, files, descriptors and mappings at the end"])

prop("C23", "A copied database says the same as its original",
 """For every database - with any networks, ASes and countries, with or without names, continents, country codes, AS numbers and metadata - tools/copy.py creates a database which gives the same answers: every lookup,
 all networks with their country code, AS number and flags, all ASes and countries with exactly the names and continents they have (and none they do not have), and the same vendor, description and license; created at the time of copying and not signed. That
 is also true of copies of copies and of copies over files which are there already, and the original is never modified. Exit status zero means that the copy is complete: if the original cannot be read or the copy cannot be written - missing
 directory, full disk, I/O error, failing close - the exit status is not zero.""",
 ["fault_sequences", "inputs", "histories"],
 "every database, history of copies and placement of disk faults",
 "The copy tool has no tests at all.",
 ["tools/copy.py", "src/python/writer.c", "src/python/database.c", "src/writer.c", "src/network-tree.c"],
 [("copies everything", "tools/copy.py:copy_all"), ("writing the file", "src/python/writer.c:Writer_write")],
 [], ["the copied file and the exit status of tools/copy.py"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
