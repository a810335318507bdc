#!/usr/bin/env python3
"""Source of properties.jsonl (run after editing)."""
import json, os
P = []

def p(id, title, statement, over, text, why, files, *mech):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))

S = "src/server/"
L = "src/lib/"

p("C01", "A write reads back exactly and changes nothing else",
  "After any history of whole, partial, single-element, bit-range, member and masked writes by any mix of clients, every read of a tag (by handle or by index and byte offset) returns exactly the bytes most recently written to each position, and zeros where nothing was written since the tag was created or grew. A write changes only the bits it addresses (a masked write only the bits selected by the mask) and no other tag; a request that reaches outside the tag is refused with an error and changes nothing.",
  ["inputs", "histories"], "every data type, count, byte and bit offset, size, mask and order of operations, from several clients",
  "the tests write a few fixed values into a few fixed tags; the bit shifting, partial-element, masking and bounds logic has to be right for every offset, size and history",
  [S + "tagbase.c", S + "message.c", L + "libdata.c", L + "libmsg.c"],
  ("tag data store and bounds checks", S + "tagbase.c: tag_read, tag_write, tag_mask_write"),
  ("bit-granular write through mask", L + "libdata.c: dax_tag_read, dax_tag_write, dax_tag_mask"))

p("C02", "Tag names resolve to the right live tag through adds and deletes",
  "For every history of tag additions, re-additions, growth and deletions, looking a tag up by name or by index returns its current index, type, count and attributes if it is alive and an error if it is not; an index is never reused, a tag that is re-added with the same type keeps its index and data, and a tag that grows keeps its old data with zeros behind it. Illegal names, types and counts are refused and change nothing, and the server's tag counters and the last-added/last-deleted descriptors agree with that history.",
  ["histories", "inputs"], "every sequence of adds, re-adds, growths, deletions and lookups, including thousands of tags",
  "a sorted index with moves on insert and delete and a database that doubles in size has to be right after any sequence; tests add a handful of tags",
  [S + "tagbase.c", S + "message.c", L + "libmsg.c"],
  ("name index and tag table", S + "tagbase.c: tag_add, tag_del, _add_index, _del_index, _database_grow"),
  ("requests", S + "message.c: msg_tag_add, msg_tag_del, msg_tag_get"))

p("C03", "Compound data types have one consistent definition everywhere",
  "A compound type defined by any sequence of valid members is accepted once, gets an identifier that resolves by name and by identifier to the same ordered list of members for every client, and its size is the packed size of those members (neighbouring bits share bytes, everything else starts on a byte), which is also the size of tags of that type. Re-creating an identical definition yields the same identifier, a conflicting or invalid definition is refused and changes nothing.",
  ["inputs", "histories"], "every member list (types, counts, nesting, names) and every order of definitions from several clients",
  "packing of bit runs, arrays and nested types depends on the whole member list; tests use a few definitions",
  [S + "tagbase.c", L + "libcdt.c"],
  ("definition parsing and sizes", S + "tagbase.c: cdt_create, cdt_append, type_size, serialize_datatype"),
  ("client mirror", L + "libcdt.c: add_cdt_to_cache, dax_get_typesize, dax_cdt_iter"))

p("C04", "Handles address exactly the named tag, element, member and bit",
  "For any tag and any reference string (element indexes, nested members, bit numbers and counts), the handle resolved from it designates exactly the bytes and bits that the type's layout assigns to that element, with the right type, count and size; references that do not exist in the tag (indexes, bits or counts beyond the end, unknown members, malformed text) are refused. Converting a handle back to text and resolving that text yields the same handle.",
  ["inputs"], "every layout of nested compound types and every well-formed and malformed reference string and count",
  "offset arithmetic over nested types with unaligned bits; the tests check a table of about a hundred strings on one layout",
  [L + "libcdt.c", L + "libdata.c"],
  ("resolution", L + "libcdt.c: dax_tag_handle, _parse_next_member, _get_index"), ("inverse", L + "libcdt.c: dax_fqn"))

p("C06", "Events fire exactly when their condition becomes true",
  "For any set of registered events and any history of writes (whole, partial, masked, grouped, atomic or mapped, by any client), each event is delivered to the module that registered it, and to no other, exactly once for each write that satisfies its condition: any touch (write), a change of value, a set or reset transition, equality or an inequality becoming true at a write after not having held at the previous write to that element (or since registration), movement by at least the deadband since the last report, or deletion of the tag. No event is delivered for writes that do not touch its data or do not satisfy its condition.",
  ["histories", "inputs"], "every type, event kind, comparison value, handle range and write history, with several modules and events on a tag",
  "the per-element edge memory and range intersection must be right for all write ranges and histories; tests use one write per event",
  [S + "events.c", S + "message.c", L + "libevent.c"],
  ("evaluation", S + "events.c: event_check, _event_hit, event_add"), ("delivery", S + "events.c: send_event"))

p("C07", "Events carry the triggering data and keep separate identities",
  "An event that was asked to send data delivers exactly the bytes of its watched range as they were after the write that triggered it, and the client callback reads them from the library; other events deliver none. Every event on a tag has its own identity: deleting or modifying one affects only that one, deleting one that does not exist is refused, and once an event is deleted, its tag deleted or its module gone it never fires again.",
  ["histories"], "every sequence of adding, changing options, deleting and firing events by several modules",
  "linked lists edited from several requests and cleanup paths; tests delete one event at most",
  [S + "events.c", L + "libevent.c", S + "module.c"],
  ("lists", S + "events.c: event_add, event_del, event_opt, events_cleanup"), ("client", L + "libevent.c: dispatch_event, dax_event_get_data"))

p("C08", "Mappings copy every source change to the destination",
  "While a mapping exists, every write that touches its source range results in the destination range holding the source's value when the write is answered, with destination bits outside the range untouched and the destination's events triggered as by a write. Mappings never run without such a write, stop when they or either tag is deleted, can be queried and deleted individually by identity, and mappings that form a loop neither hang nor corrupt anything.",
  ["histories", "inputs"], "every pair of handles (types, offsets, bits, elements), chains and cycles of mappings, and write histories",
  "tests map one tag to another with one write; bit-level ranges, chains, cycles and deletion orders are not sampled",
  [S + "mapping.c", S + "tagbase.c", L + "libmsg.c"],
  ("evaluation", S + "mapping.c: map_check, map_add, map_del"))

p("C09", "Group access equals individual access of its members",
  "Reading a tag group returns exactly the concatenation of what individual reads of its member handles would return at that moment, and writing a group has exactly the effect of writing each member handle in order, including events, mappings, protection and retention. Groups of different modules are independent, a deleted or unknown group is refused, and group limits are enforced without side effects.",
  ["inputs", "histories"], "every list of member handles (types, bits, elements, nesting, up to the size limits) and every interleaving with other operations",
  "packing of mixed bit and byte members is index arithmetic over the whole list; tests use fixed groups",
  [S + "groups.c", S + "message.c", L + "libdata.c"],
  ("server", S + "groups.c: group_add, group_read, group_write, group_del"), ("client", L + "libdata.c: dax_group_read, dax_group_write"))

p("C10", "Atomic operations compute the documented result in place",
  "For every numeric and bit type, handle range and operand, an atomic operation leaves in the addressed elements exactly the result of that operation (increment, decrement, not, or, and, nor, nand, xor, xnor) on their previous values in the type's own arithmetic, leaves every other bit of the tag alone, and triggers the events and mappings an ordinary write would. Operations not defined for the type or reaching outside the tag are refused without effect.",
  ["inputs", "histories"], "every operation, type, count, element and bit offset, operand and previous value",
  "17 types times 9 operations times offsets with bit-level masks; tests sample aligned cases",
  [S + "atomic.c", L + "libdata.c"], ("evaluation", S + "atomic.c: atomic_op, atomic_inc, atomic_not, atomic_bool_op"))

p("C11", "Overrides replace what is read and nothing else",
  "While overrides are set on a tag, every read returns the override value on exactly the bits that were overridden and the underlying data elsewhere; while they are cleared or after deletion reads return the underlying data, which writes keep updating throughout. Adding further overrides accumulates, deleting removes only the addressed bits, the query reports the underlying data and the overridden bits of the addressed range, and the counters of installed and set overrides match.",
  ["histories", "inputs"], "every sequence of adding, setting, clearing, deleting and querying overrides on any handle, mixed with writes and reads",
  "mask accumulation over histories and bit offsets; tests use one override at a time",
  [S + "tagbase.c", S + "message.c", L + "libmsg.c"], ("server", S + "tagbase.c: override_add, override_del, override_get, override_set, override_clr"))

p("C12", "Queues deliver every item once, in order, intact",
  "Items written to a queue tag are returned by reads exactly once each, complete and in the order they were written, whatever the interleaving of writers and readers and however long the queue grows; reading an empty queue reports emptiness. Operations that make no sense on a queue are refused and leave its content intact.",
  ["histories", "inputs"], "every interleaving of writes and reads, queue lengths across the growth limits, item types and counts",
  "ring-buffer growth with wrapped read positions only shows at particular fill histories",
  [S + "virtualtag.c", S + "tagbase.c"], ("ring buffer", S + "virtualtag.c: read_queue, write_queue"), ("creation", S + "tagbase.c: _queue_add"))

p("C13", "Retained tags survive restarts with their last value",
  "When the server is stopped or killed at any moment and started again, every retained tag is there again with its type, its count and the value of its last acknowledged write, whatever its type, count or the way it was written, and whether or not it was used in intermediate runs. A request that was under way at the kill has either happened or not. Tags that were not retained or were deleted do not come back; when they are added again they start from zero.",
  ["crash_points", "histories"], "every history of adding, growing, writing and deleting retained tags split over several server runs ended by stop or kill after any acknowledged operation",
  "persistence is only observable across process lifetimes and kill points, which the tests sample with a few fixed tags",
  [S + "retain.c", S + "tagbase.c"], ("store", S + "retain.c: ret_init, ret_add_tag, ret_tag_write, ret_del_tag"))

p("C14", "Protected tags cannot be altered by modules they are protected from",
  "No request of any kind from any client alters a read-only system tag, and the data of a read-only tag owned by a module changes only by that module's own requests (overrides and deletion of the tag aside); the same holds for each module's status tag except its command bits. When a module disconnects or dies, its module tag and the tags it owns disappear, its events and groups are gone, and no other tag, module or system tag is affected.",
  ["histories", "fault_sequences"], "every kind of request (write, masked write, group write, atomic, delete, map, add) against every protected tag, and every order of module exits",
  "each request type has its own path to the data; tests try a plain write",
  [S + "message.c", S + "module.c", S + "tagbase.c", S + "virtualtag.c"],
  ("read-only checks", S + "message.c: is_tag_readonly callers"), ("cleanup", S + "module.c: module_unregister"), ("special tags", S + "virtualtag.c: special_tag_write"))

p("C15", "No client input can crash the server or disturb other clients",
  "Whatever bytes a client sends, well-formed or not, before or after registering, and however it disconnects, the server stays up without memory errors, discards or refuses what is invalid, and continues to serve every other client correctly and promptly with tags, values and types that the garbage did not validly change.",
  ["inputs", "fault_sequences"], "every byte sequence and every mutation of valid requests on any number of connections",
  "hostile and corrupt input is outside what unit tests enumerate",
  [S + "buffer.c", S + "message.c", S + "tagbase.c", S + "events.c", S + "groups.c", S + "mapping.c", S + "atomic.c"],
  ("framing", S + "buffer.c: buff_read"), ("dispatch", S + "message.c: msg_dispatcher and handlers"))

p("C16", "Requests are answered once and in order however bytes arrive",
  "However a client's stream of requests is split, merged or delayed into network segments, over local or TCP sockets, up to the maximum message size and with any number of clients interleaved, each request gets exactly one response, in order, with the same content as if it had been sent alone in one piece.",
  ["schedules", "inputs"], "every fragmentation and pipelining of every valid request stream over any number of connections",
  "loopback tests always deliver one whole message per read",
  [S + "buffer.c", S + "message.c"], ("reassembly", S + "buffer.c: buff_read"), ("transport", S + "message.c: msg_receive, _message_send"))

p("C17", "Concurrent clients see one consistent order of operations",
  "When several modules, or several threads of one module, work on the same tags at the same time, the outcome equals some sequential order of their individual operations: atomic increments are never lost, whole-tag writes and group writes are never seen torn, queue items are neither lost nor duplicated, and each client sees its own operations in its own order.",
  ["schedules"], "every interleaving of operations of concurrent clients and threads",
  "a test run explores one schedule and single-client flows",
  [S + "message.c", L + "libmsg.c"], ("client locking", L + "libmsg.c: _message_send/_message_get under lock"), ("single-threaded server", S + "message.c: msg_receive"))

p("C18", "The client's tag cache is invisible",
  "Whatever the configured cache size, every client library call returns the same result that it would return without a cache: lookups by name and index, handles, reads and writes give identical answers after any history of additions, growth and deletions by this client.",
  ["histories", "configurations"], "every cache size and every history of lookups, adds, growths and deletions",
  "a hash-free ring cache with eviction order; tests use the default size and few tags",
  [L + "libfunc.c", L + "libmsg.c"], ("cache", L + "libfunc.c: cache_tag_add, check_cache_name, check_cache_index, cache_tag_del"))

p("C19", "Values survive conversion to text and back",
  "For every data type and every value of it, converting the value to text and back yields the same value, and out-of-range or malformed text is clipped or refused as documented and never writes outside the element; names of types and events convert to their codes and back.",
  ["inputs"], "every type, every bit pattern and arbitrary input text",
  "the value space of 16 types cannot be sampled by hand",
  [L + "libconv.c", L + "libutil.c", L + "libcdt.c", L + "libevent.c"],
  ("conversion", L + "libutil.c / libconv.c: dax_val_to_string, dax_string_to_val"))

p("C20", "Waits end in time, late answers harm nobody, events keep their order",
  "A library call whose answer arrives within the message timeout returns it; if it does not, the call returns the timeout error not earlier than the configured limit and shortly after it, and a late answer is never taken for the answer of another call. dax_event_wait returns the oldest pending event as soon as there is one and the timeout error only after its full time limit without event; every received event is delivered once, in the order of arrival and with its data, except that the oldest are dropped when more than eight are pending. A broken connection makes calls fail within the time limit instead of ending or blocking the module.",
  ["schedules", "histories", "fault_sequences"], "every timing of requests, answers, partial messages, events and waits, every time limit, and the loss of the connection at any point",
  "tests run with an idle server that answers at once and never exercise a time limit against a late answer",
  [L + "libmsg.c", L + "libevent.c", L + "libinit.c"],
  ("waiting", L + "libmsg.c: _message_recv, _message_get, _read_next_message; libevent.c: dax_event_wait, dax_event_poll"))

p("C21", "Lua scripts see the same tag data as other clients",
  "For every data type and value representable in Lua, a tag written from Lua holds exactly that value for other clients and a tag written by other clients reads back in Lua as that value, including arrays, elements, members, compound tags and partial access; operations that fail raise an error in Lua and change nothing.",
  ["inputs", "histories"], "every type, shape, handle and value, and sequences of Lua API calls",
  "value conversion at type limits and nesting depths is not sampled by the scripts in the tests",
  [L + "lua/libdaxlua.c", L + "lua/libdaxlua_data.c"], ("conversion", L + "lua: fetch_tag, send_tag"))

p("C22", "The Modbus server answers every request per the protocol",
  "For every request to a Modbus TCP server port or RTU slave port, valid or not and however segmented, the answer is the one the Modbus specification prescribes (echoed ids, right byte counts and data, or the right exception), register and coil contents equal the tag data and vice versa with only the addressed registers changed, and the module never crashes or stops serving other connections.",
  ["inputs", "histories"], "every function code, address, quantity and payload, split or pipelined arbitrarily, on any number of connections, interleaved with tag accesses",
  "tests issue a few well-formed requests",
  ["src/modules/modbus/mbserver.c", "src/modules/modbus/mbslave.c", "src/modules/modbus/modbus.c", "src/modules/modbus/database.c", "src/modules/modbus/modopt.c"],
  ("request handling", "src/modules/modbus/mbserver.c: _mb_read, mbslave.c: _mb_read, modbus.c: create_response"))

p("C24", "The Modbus client mirrors slave registers faithfully",
  "For every configured command, register range and slave behaviour, a polling Modbus client puts exactly the slave's register or coil values into the tag, or the tag's data into the slave, and touches no data outside the configured range; exceptions, truncated, oversized, wrong or missing responses never corrupt tags or crash the module, and polling resumes when the slave recovers.",
  ["configurations", "fault_sequences"], "every function code, address, length and tag layout, and every sequence of correct and malformed responses",
  "tests run against one well-behaved simulator",
  ["src/modules/modbus/modbus.c", "src/modules/modbus/mbports.c", "src/modules/modbus/mbcmds.c", "src/modules/modbus/modmain.c"], ("client", "src/modules/modbus/modbus.c: mb_send_command, handleresponse"))

p("C25", "Logic scripts run when configured, on current data, and publish their results",
  "For every script configuration and history of tag changes, a script runs once per trigger event or interval while it is enabled, has not failed and the module runs, sees the current tag data, its trigger's data and its own static globals, and its writable globals and tag writes reach exactly their tags. Enabling and disabling (by trigger, tag, script or itself), failures and overruns affect only the scripts they concern and show truthfully in the status tags; no script, tag or configuration brings the module down.",
  ["configurations", "programs", "schedules"], "every configuration of scripts, threads, triggers and globals, every script body and every timing of tag changes",
  "the tests start the module with a few fixed scripts and look for one result, sizes, schedules, failing scripts and interference between scripts are not covered",
  ["src/modules/daxlua/scripts.c", "src/modules/daxlua/threads.c", "src/modules/daxlua/luaopt.c", "src/modules/daxlua/luaif.c", "src/modules/daxlua/daxlua.c"], ("client", "src/modules/daxlua/scripts.c: run_script"))

p("C26", "The history log holds exactly what happened to the logged tags",
  "For every configuration of logged tags and every history of writes, the log (files or SQLite) holds for each tag an empty entry and the value when logging begins, then for WRITE tags one entry per write in order, and for CHANGE tags each value that differs from the last one by at least the threshold, preceded by the last value that was skipped. Each entry has its tag's value and the time of the write; an empty entry stands where no write came for longer than the tag's timeout and where logging ends. Late tags, file rotation, purging and restarts neither lose nor duplicate other entries, and no tag or wrong configuration brings the module down.",
  ["configurations", "histories", "inputs"], "every type, attribute, threshold, timeout and flush interval, every history of values and pauses, and every time of rotation, purge and restart",
  "the tests log a few tags once and look for a few lines, value limits, pauses, rotation, purging and restarts are not covered",
  ["src/modules/histlog/histlog.c", "src/modules/histlog/histopts.c", "src/modules/histlog/plugin.c", "src/modules/histlog/plugins/file/dhl_file.c", "src/modules/histlog/plugins/sqlite/dhl_sqlite.c"], ("logging", "src/modules/histlog/histlog.c: the tag event callbacks"))

p("C27", "The master starts, restarts and stops the configured processes",
  "For every configuration each process is started once, in order and with its delay, with exactly its arguments, user and group; whenever and however processes end (also many at once), those to be restarted are started again exactly once after a delay that begins at zero, doubles from 100 ms up to a minute and is reset by a minute of running, and the others are not. A process that uses more CPU or memory than allowed is asked to quit and then killed, and nobody else is signalled; at the end all are told to end and none is left. Wrong entries and failing starts affect only their process, and a configuration that cannot be read starts nothing.",
  ["configurations", "histories", "fault_sequences"], "every list of processes and attributes, and every history of exits, signals, failing starts and use of resources",
  "no test starts the master with processes: order, arguments, restart delays, simultaneous ends and limits are not covered",
  ["src/master/process.c", "src/master/master.c", "src/master/mstr_config.c"], ("supervision", "src/master/process.c: process_start_all, process_scan, _process_start"))

p("C28", "The command line client does exactly what its commands say",
  "For every sequence of daxc commands (adding and deleting tags, types, events, mappings and overrides, writing, reading, atomic operations, listing), given as an option, in a file, through a pipe or on the standard input, each well-formed command is carried out once, in order, and changes the database exactly as it says. What it prints is what is in the database, wrong commands are refused with a message and change nothing, and no input crashes the client or loses the commands that follow.",
  ["programs", "inputs", "histories"], "every sequence of commands and values, in any spacing and line length, over every type, and whatever others write meanwhile",
  "tests type a few commands and look for single words of the answers",
  ["src/modules/daxc/daxc.c", "src/modules/daxc/daxc_tag.c", "src/modules/daxc/daxc_event.c", "src/lib/libfunc.c", "src/lib/libtags.c"], ("commands", "src/modules/daxc/daxc.c: runcmd, runfile; daxc_tag.c"))

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            f.write(json.dumps(x) + "\n")
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for x in P:
        jsonschema.validate(x, s)
        assert x["statement"].count(". ") <= 2, x["id"]
    print(len(P))
