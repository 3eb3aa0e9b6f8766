#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long lines stay editable)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
ND="scouterx/common/netdata/"
p("C01","Every value survives encoding and decoding, and is sized exactly",
 "Any value the agent can put on the wire (null, boolean, any 64-bit decimal, float, double, text, text hash, blob, IPv4 address, and lists and maps of these nested in any way) and every primitive (fixed-width integers and floats, decimals, booleans, strings, blobs, 32-bit-length byte arrays) decodes to exactly what was encoded, for every magnitude and length including the length-prefix boundaries 253/254 and 65535/65536. Decoding consumes exactly the bytes that encoding produced, so whatever follows in the stream is read correctly, and the writer's reported size equals the number of bytes produced. Text longer than 100000 bytes is replaced by the short notice 'huge string omitted...' and the stream stays well formed.",
 ["inputs"],"All values (any nesting), all primitive magnitudes, all byte lengths 0..~200 kB, followed by arbitrary further data.",
 "Existing tests encode a handful of small constants; they never cross a length-prefix boundary, nest containers, or check the bytes that follow.",
 [ND+f for f in ["dataoutputx.go","datainputx.go","valuecreator.go","listvalue.go","mapvalue.go","ip4value.go","blobvalue.go","textvalue.go","decimalvalue.go"]],
 [("WriteBlob/ReadBlob length prefixes",ND+"dataoutputx.go"),("WriteDecimal/ReadDecimal",ND+"dataoutputx.go"),("CreateValue",ND+"valuecreator.go")])
p("C02","Packs and profile steps follow the collector's byte format exactly",
 "Every pack the agent sends (xlog, xlog profile, text, alert, object registration, performance counter, Kubernetes performance counter, map) and every profile step (message, hashed message, parameterised message, method, API call, async call, dump) is encoded as its type byte followed by its fields in the collector's fixed order and width, with decimals in their shortest form (0, 1, 2, 4 or 8 bytes after a length byte), length-prefixed blobs and strings, and nothing left over. A decoder written independently of the agent's own recovers every field the caller set, for all field values. A list of steps is the concatenation of their encodings in order, nil steps skipped.",
 ["inputs"],"All field values of all pack and step types.",
 "Tests print or round-trip two packs with one fixed value each through the agent's own reader, which has no reader at all for xlogs, profiles, alerts and texts.",
 [ND+f for f in ["xlogpack.go","xlogprofilepack.go","textpack.go","alertpack.go","objectpack.go","perfcounterpack.go","perfcounter_k8s_pack.go","mappack.go","step.go","methodstep.go","apicallstep.go","threadstep.go","messagestep.go","hmessagestep.go","pmessagestep.go","dumpstep.go","dataoutputx.go"]],
 [("Write of each pack/step",ND),("WritePack/WriteStep type byte",ND+"dataoutputx.go")])
p("C03","Packs read back what was written; typed put and get agree",
 "An object registration, performance-counter, Kubernetes performance-counter or map pack that is written and read back carries the same fields and the same key/value table. A string, bool, int, int32, int64, uint32 or float32 put under a key of a map value, map pack or counter pack is stored, a later put of the same key replaces it, and the typed getters return it (integers exactly when they fit); an absent key or a value of another type yields the zero value, never a panic. List accessors return the element added at that position, and setting an object's status is visible in its tags.",
 ["inputs","histories"],"All field values; all sequences of put/get/add operations with all supported argument types.",
 "Tests put one value of one type and read it back; silently dropped argument types and replaced keys are never exercised.",
 [ND+f for f in ["mapvalue.go","mappack.go","listvalue.go","objectpack.go","perfcounterpack.go","perfcounter_k8s_pack.go","packcreator.go"]],
 [("Put type switches",ND+"mapvalue.go"),("CreatePack",ND+"packcreator.go")])
p("C04","Decoding arbitrary or truncated bytes fails cleanly",
 "Decoding any byte sequence as a value or pack, whether random, truncated or corrupted, returns a value or an error: it never panics, never runs on after the input is exhausted, and never allocates memory out of proportion to the input. A strict prefix of a valid encoding yields an error, never a silently different result. The result does not depend on how the transport segments the bytes: delivered one byte at a time or all at once, the same bytes decode to the same result.",
 ["inputs","fault_sequences"],"All byte sequences, all truncation points of valid encodings, all segmentations.",
 "Tests decode only complete, valid, in-memory encodings.",
 [ND+"datainputx.go",ND+"listvalue.go",ND+"mapvalue.go",ND+"mappack.go",ND+"objectpack.go",ND+"perfcounterpack.go",ND+"packcreator.go"],
 [("ReadBlob/Read length handling",ND+"datainputx.go"),("ReadPack/ReadValue error propagation",ND+"datainputx.go")])
p("C05","Hashes, id text and address parsing are exact functions",
 "The hash of a string is the signed 32-bit CRC-32 (IEEE) of its bytes, as the collector computes it. The textual form of an id is 'x' or 'z' (for negative) followed by its magnitude in base 32, distinct and invertible for every 64-bit id. A dotted IPv4 address parses to its four bytes and anything else to 0.0.0.0; a duration in seconds is rendered as days, hours (0-23), minutes and seconds (0-59) that add up to it.",
 ["inputs"],"All strings, all 64-bit ids, all strings as addresses, all non-negative durations.",
 "Tests hash one string and parse two addresses.",
 ["scouterx/common/util/hashutil.go","scouterx/common/util/hexautil.go","scouterx/common/util/iputil.go","scouterx/common/util/timeutil.go"],
 [("Hash","scouterx/common/util/hashutil.go"),("IntToXlogString32","scouterx/common/util/hexautil.go"),("IpToBytes","scouterx/common/util/iputil.go")])
p("C06","Transaction ids are unique within and across agent processes",
 "Generated ids are non-negative 63-bit numbers that do not repeat, whatever number of goroutines draws them concurrently. Two agent processes, even when started in the same second, do not produce the same ids.",
 ["schedules","histories"],"All numbers of concurrent callers and of simultaneously started processes.",
 "The only test prints one id.",
 ["scouterx/common/util/keygen/keygen.go"],[("Next under a lock; seeding","scouterx/common/util/keygen/keygen.go")])
p("C07","Service-name patterns match like wildcards, one list entry at a time",
 "A comma-separated pattern list matches a non-empty name exactly when at least one of its entries does. Each entry is a wildcard pattern in which '*' stands for any (possibly empty) run of characters and everything else stands for itself, in the supported shapes: literal, X*, *X, *X*, X*Y, *X*Y, X*Y*, *X*Y*, * and **. The empty name matches nothing.",
 ["inputs"],"All lists of supported patterns over all names.",
 "The existing test checks single matchers on a few hand-picked names, never a list, nor overlapping or repeated fragments.",
 ["scouterx/common/util/strmatch.go"],[("NewStrMatch/include","scouterx/common/util/strmatch.go"),("CommaSeparatedChainedStrMatcher","scouterx/common/util/strmatch.go")])
ST="scouterx/common/structure/"
p("C08","Bounded caches behave as insertion-ordered maps of limited size",
 "For every sequence of add, get, contains, remove, clear and size operations, each bounded cache (the registry cache, the two key/value cache maps and the cache set) behaves as a map or set that holds at most its maximum number of entries and, when a new key would exceed it, evicts the key inserted earliest; re-adding a present key does not change its age. Re-adding replaces the value in the registry cache and keeps the first value in the cache maps. Removing or clearing forgets the entry completely: it no longer counts towards size, values or eviction, and can be added again as new; the registry cache's eviction callback, if set, is told of each entry leaving.",
 ["histories","inputs"],"All operation sequences over all maximum sizes >= 1.",
 "Tests run one fixed add/contains script per structure.",
 [ST+"lra/lra.go",ST+"cachemap/cachemap.go",ST+"cachemap2/cachemap2.go",ST+"cacheset/cacheset.go"],
 [("removeExceeded/removeOldest",ST)])
p("C09","Bounded caches stay sound and never block under concurrent use",
 "Any mix of operations on the bounded caches from any number of goroutines finishes (no operation deadlocks, crashes or loops), and never leaves a cache above its maximum size. What a concurrent reader obtains is a value that some operation stored under that key; once the operations have finished the contents are consistent: size, membership and values agree.",
 ["schedules","histories"],"All interleavings of concurrent callers on shared caches.",
 "Tests are single-threaded except one lra loop that asserts nothing.",
 [ST+"lra/lra.go",ST+"cachemap/cachemap.go",ST+"cachemap2/cachemap2.go",ST+"cacheset/cacheset.go"],
 [("package-level RW locks",ST)])
p("C10","Sliding-window meters report exactly the last N seconds",
 "For every history of recorded samples and gaps, the service meter asked for the last N seconds (1..300) reports TPS = count/N, mean elapsed = total elapsed / count (whole milliseconds, negative elapsed counted as 0) and error rate = errors/count in percent, computed over exactly the samples recorded in the N most recent whole seconds including the current one; the value meter reports the sum and mean of its samples over the same window. With no samples in the window all are 0. Older samples never reappear, however long the idle gap.",
 ["histories","schedules"],"All sample histories, all gaps including those beyond the 300 s window, all N.",
 "No existing test drives the meters across time.",
 ["scouterx/counter/metering.go","scouterx/counter/serviceMetering.go","scouterx/counter/valueMetering.go"],
 [("ring of per-second buckets",  "scouterx/counter/metering.go")])
p("C11","UDP framing delivers each buffer exactly once within the size limit",
 "Every buffer or list of buffers handed to the UDP client is emitted as datagrams from which a collector recovers exactly those buffers, each once and complete: a buffer within the limit as a single or batched frame (whose count equals the buffers in it, in order), a larger one as numbered fragments under a packet id that no other buffer has, with the right total, that concatenate to it. No datagram payload exceeds the configured maximum by more than the small fixed frame header. This holds for every mix of sizes around the limit, every limit, and also when several goroutines write at once.",
 ["inputs","configurations"],"All buffer lists and size limits (up to 32767 fragments per buffer).",
 "Tests send a few fixed buffers and look at nothing that arrives.",
 ["scouterx/netio/udpclient/udpclient.go"],[("WriteBuffer/WriteBufferList/writeMTU","scouterx/netio/udpclient/udpclient.go")],["datagrams at the collector's UDP port"])
p("C12","The UDP sender delivers queued data in order and never blocks callers",
 "Everything accepted by the UDP send queue reaches the collector exactly once and in the order queued, whatever the burst sizes; packs and lists sent directly arrive exactly once. Queueing never blocks the caller: when the queue (of the configured size) is full the excess is dropped, everything accepted still arrives, and later sends work normally. When the collector's address or the datagram limit changes in the configuration, sending continues to the new address with the new limit.",
 ["histories","schedules","configurations"],"All sequences of queued/direct sends, bursts and reconfigurations.",
 "The only test sends one pack and asserts nothing.",
 ["scouterx/netio/udpsender/udpsender.go","scouterx/common/factory/channelfactory/channelfactory.go"],
 [("bounded channel with non-blocking send","scouterx/netio/udpsender/udpsender.go"),("reload loop","scouterx/netio/udpsender/udpsender.go")],["datagrams at the collector's UDP port"])
p("C13","Every text hash is announced to the collector with its text",
 "Whenever the agent hands out the hash of a non-empty text (service name, object name, error, method, API call, hashed message, user agent, referer, login, description, stack element), it is the text's hash and a text record with that category, that hash and exactly that text has been sent since the last cache reset; only a text that found the send queue full is missing, and it is sent at its next use. The same text in the same category is not sent again until the cache is reset or at least as many newer texts as the category's cache holds have displaced it (100 object names, 10000 of the others), and categories are independent of each other. The empty text has hash 0 and is never announced.",
 ["histories","inputs"],"All sequences of texts over all categories, with resets and evictions at any point.",
 "Tests send fixed texts without looking at what arrives.",
 ["scouterx/netio/dataproxy.go","scouterx/common/structure/lra/lra.go"],[("sent caches per category","scouterx/netio/dataproxy.go"),("ResetTextSent","scouterx/netio/dataproxy.go")],["TEXT packs at the collector's UDP port"])
TR="scouterx/strace/tracemain.go"; TC="scouterx/netio/tracecontext.go"
p("C14","Each finished service yields exactly one xlog with its true data",
 "Every traced service that ends produces exactly one xlog, however often or concurrently it is ended and whatever is called afterwards; a service that has not ended produces none. The xlog carries the service's own transaction id, agent hash, name (as changed last), type (web, application or background), elapsed milliseconds from start to end, error hash (the first recorded error unless overridden forcibly, 0 if none), HTTP status, client address (from the configured header if present), user agent, referer, API-call count and time, SQL count and time, user id, login, description and free texts. Starting a service inside a traced context keeps that context's service instead of creating another.",
 ["histories","inputs","schedules"],"All sequences of tracing calls, nested and interleaved services, all attribute values.",
 "Tests run one trace against no collector and assert nothing.",
 [TR,TC,"scouterx/netio/dataproxy.go"],[("endAnyServiceOfTraceContext",TR),("ToXlog",TC)],["XLOG packs at the collector's UDP port"])
p("C15","A service's profile holds all its steps in order, in bounded chunks",
 "The profile records of a finished, fully collected service together contain every profile step added before its end exactly once (method and API-call steps when they end), each with its caller's data, also when several goroutines use the service's context at once; the steps' indexes number them in the order they were started, and each step's parent is the index of the method or API call that encloses it. A profile record never contains more steps than the configured maximum and carries the service's transaction id, the agent's hash and (once it is set) the service's hash; nothing is lost when the in-memory limit is exceeded. The xlog's profile count and size equal the number of steps and of profile bytes sent.",
 ["histories","configurations"],"All well-nested sequences of steps of every kind, all step counts relative to the in-memory and per-record limits.",
 "No test looks at a profile; limits of 1024/2048 steps are never reached.",
 ["scouterx/netio/profilecollector.go","scouterx/netio/dataproxy.go",TR],[("Push/Pop/Add/Process/Close","scouterx/netio/profilecollector.go"),("SendProfile chunks","scouterx/netio/dataproxy.go")],["XLOG_PROFILE packs at the collector's UDP port"])
p("C16","Asynchronous and remote calls stay linked to their caller",
 "A service started for a goroutine through the tracing API runs the given function exactly once and, when traced, has its own transaction id, its parent's transaction id as caller, the root's global id as global id, type background, and an async step in the parent's profile that names it. An API call with propagation adds request headers holding the textual global id, caller id, callee id and agent hash, where the callee id equals the API-call step's id; in a request sent again or forwarded they replace the earlier ones. An inherited service keeps its parent's global id, name, type, error, texts, counters and stream mark with its parent as caller; a root service's global id is its own id.",
 ["histories","inputs"],"All trees of services, goroutines, API calls and inherited services.",
 "Existing tests start one goroutine and check nothing.",
 [TR,TC],[("startChildGoroutineService/inheritTctx/StartApiCallWithPropagation",TR)],["XLOG/XLOG_PROFILE packs","HTTP request headers"])
p("C17","Sampling and discard settings decide exactly which services are sent",
 "A service with an error is always sent in full, unless its name matches the discard patterns while showing errors of discarded services is switched off; a service without error whose name matches the discard patterns is never sent. Otherwise, while sampling is enabled and the name matches the exclude patterns it is sent in full; else the first enabled patterned sampling (1, 2, 3 in that order) whose patterns match the name decides, else the general sampling if enabled: the elapsed time selects the band (below step 1, 2, 3 bound, or over) and that band's percentage is the chance of being sent in full, the rest being sent without profile if 'only profile' is set and otherwise not at all (unless called by another service, when the xlog alone is sent). Every ended service counts in the service meter whether sent or not, and pattern changes take effect on reload.",
 ["configurations","inputs","histories"],"All sampling configurations, service names, elapsed times and errors; rates 0 and 100 exactly, others statistically.",
 "No test sets any sampling option.",
 ["scouterx/strace/xlogsampler.go",TR,"scouterx/common/util/strmatch.go"],[("findXLogDiscard",TR),("eEvaluateXLogDiscard","scouterx/strace/xlogsampler.go")],["XLOG/XLOG_PROFILE packs at the collector's UDP port"])
p("C18","Tracing calls never disturb the host application",
 "Whatever contexts, steps, names and orders of calls an application passes to the tracing API (nil context, untraced context, nil or foreign steps, ended or doubly ended services, unbalanced method ends, nil responses or errors, arbitrary parameter values that can be formatted), no call panics or blocks, calls on untraced contexts change and send nothing, and a service start returns a usable context that keeps the caller's values, cancellation and deadline. The application's own behaviour is preserved: the function given for a goroutine runs exactly once with the caller's context values even when untraced, and its panic is neither swallowed nor replaced.",
 ["histories","inputs"],"All sequences of API calls with all argument combinations.",
 "Tests call the API only in the intended order with valid arguments.",
 [TR,"scouterx/common/panic.go","scouterx/strace/tctxmanager/tctxmanager.go"],[("ReportScouterPanic guards","scouterx/common/panic.go")])
p("C19","The active-service registry mirrors running services; stuck ones end",
 "At any moment the active-service listing and lookup by transaction id show exactly the services started and not yet ended, with their name, id, address and elapsed time, and the active counts class them by age: up to the yellow limit, up to the red limit, beyond. A service running longer than the stuck limit is reported by an alert at the next count naming it and its elapsed time (level error if stuck alerts are enabled, otherwise warning) and, if removal is enabled, is ended then exactly once, marked as an error, and no longer listed. Services below the limit are left alone. (Histories of up to 2000 services running at once.)",
 ["histories","configurations","schedules"],"All sequences of starts, ends and time advances; all limits.",
 "No test looks at active services.",
 ["scouterx/strace/tctxmanager/tctxmanager.go","scouterx/netio/tcpclient/handlers.go",TR],[("GetActiveCount/txidMap","scouterx/strace/tctxmanager/tctxmanager.go"),("GetActiveList","scouterx/netio/tcpclient/handlers.go")])
CF="scouterx/conf/configure.go"
p("C20","Each setting has its configured value: file over environment over default",
 "After every load or reload, each setting equals its value in the configuration file if present and non-empty there, else the environment variable of that name if non-empty, else its documented default; a value that does not parse as a number, or is an unusable size, yields the default. A reload happens when the file is newer (on demand, and unasked within seconds), replaces all settings (a removed key falls back), and keeps the previous settings when the file is malformed or cannot be read; a first file that is malformed or cannot be read counts as empty (environment and defaults are in force). The agent's name is '/hostname/obj_name', its hash is that name's hash, and listeners are told of a reload, and of a name change exactly when the name changed.",
 ["configurations","histories"],"All settings files, environments and sequences of file changes.",
 "The test loads one file and prints it.",
 [CF,"scouterx/conf/opserver.go"],[("Refresh/addToConf",CF),("observers","scouterx/conf/opserver.go")])
p("C21","No configuration value can bring down the host application",
 "Whatever a configuration file or environment contains (zero, negative, huge or non-numeric sizes and limits, bad addresses and ports, odd patterns, self-referring or unterminated ${...} expressions, binary garbage, missing or unreadable file), the agent keeps running, tracing calls keep returning, and services traced after a valid configuration is restored are sent again. Queue, datagram and profile sizes that cannot be used (zero, negative or impossibly large) are treated as their defaults.",
 ["configurations","fault_sequences"],"All configuration texts and environments, applied before or during operation.",
 "No test runs the agent with anything but defaults.",
 [CF,"scouterx/netio/udpclient/udpclient.go","scouterx/netio/profilecollector.go","scouterx/netio/dataproxy.go","scouterx/common/factory/channelfactory/channelfactory.go"],[("typed getters with defaults",CF)])
p("C22","Remote configuration commands read, change and list settings consistently",
 "Over the collector connection, reading the configuration returns exactly the text of the configuration file (up to the 100000 bytes a text on the wire may have), and setting it writes exactly the given text, applies it at once and reports success. Listing the configuration gives for every setting its key, current value and default, in lists of equal length and consistent with the values in force, and the type and description lists cover the same keys, each type fitting its default. Resetting the text cache makes every text be announced again at its next use.",
 ["histories","inputs"],"All sequences of get/set/list/reset commands with all configuration texts.",
 "No test speaks the collector's command protocol.",
 ["scouterx/netio/tcpclient/handlers.go","scouterx/conf/exthandler.go",CF],[("loadConfig/saveConfig/listConfig","scouterx/netio/tcpclient/handlers.go")],["TCP command replies"])
TCPF="scouterx/netio/tcpclient/tcpclient.go"
p("C23","The command connection answers every command in order, whatever arrives",
 "On a collector connection the agent first identifies itself (protocol magic and agent hash), then answers each command in order with zero or more continuation records followed by exactly one end marker, independent of how the network segments the bytes; known commands get their reply and unknown commands an empty answer. Malformed, truncated or oversized requests end at most that connection with an error, never the process, and the connection ends when the agent's name or the collector address changes. A collector that stays silent, or stops reading its answers, is given up after the configured timeout.",
 ["histories","inputs","fault_sequences"],"All command sequences, parameters, segmentations, malformed requests and disconnect points.",
 "No test speaks the command protocol.",
 [TCPF,"scouterx/netio/tcpclient/handlers.go","scouterx/netio/tcpclient/tcpmanager.go",ND+"datainputx.go"],[("Process loop",TCPF)],["bytes on the TCP connection"])
DU="scouterx/dump/dump.go"
p("C24","Dump commands list and serve exactly the dump files and nothing else",
 "Dump listings give the name and size of every dump file; requesting a listed file returns its exact bytes whatever its size, and deleting a listed binary dump removes that file only and reports success. Whatever name a collector sends (absolute, with '..', with separators, empty, of a missing or foreign file), no file outside the agent's dump directories is read, revealed, changed or deleted. Names without the dump suffix are refused for binary download and deletion.",
 ["inputs","histories"],"All file contents and sizes, all requested names, all sequences of list/download/delete.",
 "No test covers dumps.",
 [DU,"scouterx/netio/tcpclient/handlers.go"],[("DownloadBinaryDumpFiles/DeleteBinaryDumpFiles/StreamDumpFileContents",DU)],["file system","TCP replies"])
p("C25","A goroutine dump is complete when it is reported",
 "When a goroutine dump has been requested and its name returned, the named file in the dump directory holds the stack of every goroutine of the process at that moment, in full, however few or many there are (up to the 64 MB of text the runtime gives), and when it cannot be written no name is returned. The stack trace text used in panic reports lists the calling functions with file and line.",
 ["histories","inputs"],"All numbers of goroutines, from a dump far below to far above any buffer size.",
 "No test covers dumps.",
 [DU],[("heavyAllStackTrace",DU)],["dump file contents"])
p("C26","Counter packs report the meters and the runtime truthfully",
 "The periodic counter records carry the agent's name, the right time type (real-time every 2 s over 30 s, five-minute every 10 s over 300 s) and, under their published names, TPS, mean elapsed time and error rate equal to what the service meter computes, the average and the three age classes of active services, and the runtime's goroutine, cgo-call, heap and per-second garbage-collection figures. The per-second figures are the differences since the previous sample divided by the time between.",
 ["histories"],"All sample histories before a counter record.",
 "No test reads a counter record.",
 ["scouterx/task/countertask/countertask.go","scouterx/counter/collector.go","scouterx/counter/gocounter/gocounter.go","scouterx/counter/const.go"],[("getAllCounterOnPack","scouterx/task/countertask/countertask.go"),("SendServiceCounter/SendGoCounter","scouterx/counter/collector.go")],["PERFCOUNTER packs at the collector's UDP port"])
p("C27","A started agent registers, stays registered and reconnects after faults",
 "A process that imports the agent announces its object name and registers itself (name, hash, type, version) at once and every 2 seconds, sends counter records periodically and keeps a command connection to the configured collector. When the collector is absent at start, closes or resets the connection, sends garbage or goes away and returns, the agent keeps running and connects again; when the configured name or collector address changes, it registers under the new name or at the new collector.",
 ["fault_sequences","histories","configurations"],"All sequences of collector faults and configuration changes during a run.",
 "Agent tests loop for ever against nothing and are not run.",
 ["scouterx/agent.go","scouterx/task/agenttask/agenttask.go","scouterx/netio/tcpclient/tcpmanager.go","scouterx/netio/udpsender/udpsender.go"],[("Init","scouterx/agent.go"),("startTcp","scouterx/netio/tcpclient/tcpmanager.go"),("SendObjPack","scouterx/task/agenttask/agenttask.go")],["UDP datagrams and TCP connections at the collector"])
p("C28","A requested profile covers its period completely and leaves no sampling on",
 "When a profile of blocking, mutex contention or processor use is requested, the request is answered at once and, when its period is over, one complete and well-formed profile is in the text dump directory or, with the pprof suffix, in the binary one, and shows what the process did in the period: every blocking event or contention at a sampling rate that records all, and the functions that computed. Events outside of all periods are not recorded: sampling ends with the last period and an earlier setting of mutex sampling is restored, also when periods overlap (requested in different seconds).",
 ["histories","schedules"],"All histories of profile requests of every kind and length, and of events in and out of their periods.",
 "No test covers profiles.",
 [DU,"scouterx/netio/tcpclient/handlers.go"],[("profileBlock/profileMutex/profileCpu",DU)],["profile file contents","runtime sampling settings"])
p("C29","Services may be traced, listed and ended by any number of goroutines at once",
 "With settings that stay as they are, any number of goroutines may start, trace, name, mark, hand on, inherit from, list, count, look up and end services, their own and those other goroutines started, while the agent's tasks, senders, collector commands, dumps and block and mutex profiles run: no two of them access the agent's memory without synchronisation (no data race in the sense of the Go memory model), no call hangs or ends the process, every listing of the active services shows whole services (its own name, the goroutine it was started on and its remote address for each, in lists of equal length), and when all services have ended, child goroutines included, none is active. Not included: the streaming state of an HTTP response, the agent's forced end of a service active beyond the stuck limit, and two ends with a response of one service.",
 ["schedules","histories"],"All concurrent programs over the tracing interface, all schedules, with the agent's tasks and command connection running.",
 "Tests trace from one goroutine at a time and are not run under the race detector.",
 ["scouterx/netio/tracecontext.go","scouterx/netio/dataproxy.go","scouterx/strace/tracemain.go","scouterx/strace/tctxmanager/tctxmanager.go","scouterx/netio/tcpclient/handlers.go","scouterx/strace/xlogsampler.go","scouterx/netio/udpsender/udpsender.go"],
 [("TraceContext fields and their lock","scouterx/netio/tracecontext.go"),("startService/endAnyService","scouterx/strace/tracemain.go"),("GetActiveList","scouterx/netio/tcpclient/handlers.go")],
 ["race detector reports","active service listings","active service registry"])
p("C30","Files are read and written where the environment says, and nowhere else",
 "The configuration is the file named by SCOUTER_CONFIG, else by the variable scouter.config (an empty variable counts as absent), else conf/scouter.conf in the agent's home, which is SCOUTER_AGENT_HOME or else 'scouter' in the working directory (in the temporary one if there is none); relative names count from the working directory. That file alone is read, shown to the collector and replaced by it. Text dumps and text profiles are written to, listed in and served from the home's directory dump, binary profiles binary_dump, under names of their kind. Log lines are appended to logs/scouter.log in the home, whose earlier contents stay, and go to standard output, errors to standard error. Missing directories of the home are made. Beyond these no file or directory anywhere is made, changed or removed; and when one of the places cannot be used (a file where a directory should be) the agent runs on, what cannot be written is left out or reported as failed, and the other places work as ever.",
 ["configurations","histories"],"All environments, working directories and states of the file system at start, followed by any sequence of logging, dumping, listing, fetching, deleting and saving.",
 "Tests run with one home and look at no file the agent writes.",
 ["scouterx/common/util/fileutil.go","scouterx/conf/configure.go","scouterx/common/logger/logger.go","scouterx/dump/dump.go"],
 [("getConfFilePath","scouterx/conf/configure.go"),("SaveConfigText/LoadConfigText","scouterx/conf/exthandler.go"),("logger.Init","scouterx/common/logger/logger.go"),("dump and binary dump paths","scouterx/dump/dump.go")],
 ["file system","standard output and error"])
p("C31","A long-lived process holds no more for being traced longer",
 "However long a process is traced, what the agent holds stays bounded. Once the services, connections, dumps and profiles of a stretch of work have ended, the process has no more open files and sockets and no more goroutines of the agent than before it, whichever way they ended: a connection by the collector's close, reset, silence, malformed request, unread answer, refusal or a change of the agent's name; a download of a missing or unreadable file; a profile that could not be started or written; a change of the collector's address or of the datagram size; a service in a context that is never cancelled. No service stays active. Memory does not grow with repetitions of the work, whatever new names, errors, addresses and texts they bring: of each kind of text, and of services never ended, at most a fixed number is remembered.",
 ["histories","inputs","faults"],"All histories of tracing, connections, dumps, profiles and configuration changes; arbitrarily many distinct texts.",
 "Tests trace a handful of services and never look at descriptors, goroutines or memory.",
 ["scouterx/netio","scouterx/netio/tcpclient","scouterx/netio/udpsender/udpsender.go","scouterx/dump/dump.go","scouterx/strace","scouterx/common/structure/lra/lra.go"],
 [("text memories (lra.New)","scouterx/netio/dataproxy.go"),("txidMap","scouterx/strace/tctxmanager/tctxmanager.go"),("TCPClient.Process","scouterx/netio/tcpclient/tcpclient.go"),("reloadUdpSender","scouterx/netio/udpsender/udpsender.go"),("profileCpu, DownloadBinaryDumpFiles, StreamDumpFileContents","scouterx/dump/dump.go")],
 ["open descriptors","goroutines","reachable heap","active service registry"])
here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
