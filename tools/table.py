"""What each property's check runs: harness package, test pattern, shards (processes) per tier."""
def R(pkg, run, q=1, th=8, **k):
    d = {"pkg": pkg, "run": run, "shards": {"quick": q, "thorough": th}}
    d.update(k)
    return d

TABLE = {
    "C01": {"runs": [R("wire", "^TestC01", 4)]},
    "C02": {"runs": [R("wire", "^TestC02", 4)]},
    "C03": {"runs": [R("wire", "^TestC03", 4)]},
    "C04": {"runs": [R("wire", "^TestC04", 4)]},
    "C05": {"runs": [R("util", "^TestC05", 2)]},
    "C06": {"runs": [R("util", "^TestC06", 2, 4)]},
    "C07": {"runs": [R("util", "^TestC07", 2)]},
    "C08": {"runs": [R("structs", "^TestC08", 4)]},
    "C20": {"runs": [R("confset", "^TestC20", 4), R("conf", "^TestC20Start$", 2)]},
    "C30": {"runs": [R("conf", "^TestC30Places$", 6)]},
    "C21": {"runs": [R("conf", "^TestC21Config$", 6)]},
    "C11": {"runs": [R("udp", "^TestC11", 4)]},
    "C12": {"runs": [R("udp", "^TestC12", 6)]},
    "C13": {"runs": [R("udp", "^TestC13", 4), R("trace", "^TestC13Trace", 2)]},
    "C14": {"runs": [R("trace", "^TestC14Xlog", 5), R("trace", "^TestC14Race", 1, 2), R("trace", "^TestC14Shared", 1, 2)]},
    "C15": {"runs": [R("trace", "^TestC15Profile", 5), R("trace", "^TestC15Shared", 1, 3)]},
    "C16": {"runs": [R("trace", "^TestC16", 6)]},
    "C17": {"runs": [R("trace", "^TestC17", 6)]},
    "C18": {"runs": [R("trace", "^TestC18Odd", 4), R("trace", "^TestC18Panic", 2, 2)]},
    "C19": {"runs": [R("trace", "^TestC19Registry", 5), R("trace", "^TestC19Race", 1, 2), R("trace", "^TestC19Crowd", 1, 2)]},
    "C22": {"runs": [R("tcp", "^TestC22", 4)]},
    "C23": {"runs": [R("tcp", "^TestC23", 4)]},
    "C24": {"runs": [R("tcp", "^TestC24Dumps", 4), R("tcp", "^TestC24Large", 1, 2)]},
    "C25": {"runs": [R("tcp", "^TestC25Dump", 2), R("tcp", "^TestC25Small", 3), R("tcp", "^TestC25Trace", 1)]},
    "C28": {"runs": [R("tcp", "^TestC28Periods", 4), R("tcp", "^TestC28Cpu", 1, 2), R("tcp", "^TestC28Commands", 1)]},
    "C29": {"runs": [R("tcp", "^TestC29Races", 4, race=True)]},
    "C31": {"runs": [R("trace", "^TestC31Traced", 4), R("trace", "^TestC31Texts", 1, 2), R("tcp", "^TestC31Wire", 3)]},
    "C27": {"runs": [R("trace", "^TestC27Cadence", 3), R("e2e", "^TestC27Reconnect", 4, conf="net_collector_tcp_port=9\nnet_collector_udp_port=9\n", shrink="1s")]},
    "C26": {"runs": [R("trace", "^TestC26", 4, cgo=True)]},
    "C10": {"runs": [R("meter", "^TestC10Window", 4), R("meter", "^TestC10Concurrent", 1, 1, race=True)]},
    "C09": {"runs": [R("structs", "^TestC09", 2), R("structs", "^TestC09", 2, race=True)]},
}

# how many times the base number of cases a quick check runs
for _id, _x in {'C01': 10, 'C02': 6, 'C03': 10, 'C04': 6, 'C05': 10, 'C07': 8, 'C08': 8, 'C09': 4, 'C10': 4, 'C11': 3, 'C12': 3, 'C13': 6, 'C14': 6, 'C15': 8, 'C16': 8, 'C17': 5, 'C18': 6, 'C19': 6, 'C20': 6, 'C21': 2, 'C22': 3, 'C23': 3, 'C24': 4, 'C25': 5, 'C26': 2, 'C29': 3, 'C30': 12, 'C31': 2}.items():
    TABLE[_id]["x"] = _x

# deciding method, and what the level means, per property
NOTES = {
    "C01": ("property-based round trip and differential testing against an independent codec (rapid)", "Generated values and primitive sequences over all length and magnitude classes; not exhaustive."),
    "C02": ("property-based differential testing against an independent strict decoder (rapid)", "Generated packs and steps with all fields random; not exhaustive."),
    "C03": ("property-based round trip and model-based put/get testing (rapid)", "Generated packs and operation sequences; not exhaustive."),
    "C04": ("structured fuzzing with truncation, corruption and segmentation of encodings (rapid)", "Generated byte strings; every truncation point of short encodings, sampled ones of long."),
    "C05": ("property-based differential testing against bitwise/reference implementations and inverse functions (rapid)", "Generated strings, ids, addresses and durations including boundaries; not exhaustive."),
    "C06": ("generated concurrent draws and process pairs checked for uniqueness", "Sampled draws and process starts; uniqueness is not proved."),
    "C07": ("property-based differential testing against a dynamic-programming wildcard matcher (rapid)", "Generated pattern lists and names over small alphabets; not exhaustive."),
    "C08": ("model-based stateful testing of operation sequences (rapid)", "Generated operation histories against ordered-map models; not exhaustive."),
    "C09": ("generated concurrent schedules with invariant checks, also under the race detector (rapid)", "Schedules are sampled from the real scheduler; not exhaustive."),
    "C10": ("model-based testing of metering histories on a fake clock, and concurrent recording under the race detector (rapid, synctest)", "Generated histories of waits, samples and questions; not exhaustive."),
    "C11": ("property-based metamorphic testing: generated buffer sequences sent through real datagrams and reassembled by an independent receiver (rapid)", "Generated limits and buffer sizes; not exhaustive."),
    "C12": ("model-based testing of send, burst, concurrency and reconfiguration histories on a fake clock against real datagrams (rapid, synctest)", "Generated histories over several queue sizes; not exhaustive."),
    "C13": ("model-based testing of text-use histories against the announcements received by an independent collector (rapid, synctest)", "Generated histories including cache displacement, queue overflow, resets and concurrent users; not exhaustive."),
    "C14": ("model-based testing of traced histories executed against the real API on a fake clock, xlogs decoded by an independent collector (rapid, synctest); racing ends", "Generated plans of several services and goroutines; the race part samples real schedules."),
    "C15": ("model-based testing of step histories against the profile records received by an independent collector (rapid, synctest)", "Generated step programs over several chunk limits; not exhaustive."),
    "C16": ("model-based testing of call trees across goroutines, remote calls and inherited services (rapid, synctest)", "Generated call trees; not exhaustive."),
    "C17": ("property-based differential testing against an independent decision function of the sampling settings; percentages tested statistically (rapid, synctest)", "Generated settings and batches; percentages strictly between 0 and 100 are judged by a 7-sigma bound over all cases."),
    "C18": ("fuzzing of tracing-call programs over odd contexts, steps, requests and parameters (rapid, synctest), and of host processes whose goroutines panic", "Generated programs; calls are judged for panics, waiting, returned contexts and what is sent."),
    "C19": ("model-based testing of service histories with counts, listings and lookups under generated limits on a fake clock (rapid, synctest); racing counts", "Generated histories; the race part samples real schedules."),
    "C22": ("model-based stateful testing of configuration command histories over real connections (rapid)", "Generated histories over every setting but those of the connection itself; texts up to 90 kB."),
    "C23": ("model-based testing and fuzzing of command sequences, segmentations, malformed requests and faults over real connections (rapid)", "Generated connections; timeouts are judged by lower bounds and generous upper bounds."),
    "C24": ("model-based stateful testing of dump command histories with hostile names and files coming and going (rapid)", "Generated histories; files and directories only below a scratch directory."),
    "C25": ("property-based testing of generated crowds of goroutines and call chains against their dumps, with write faults (rapid)", "Generated crowds up to thousands of goroutines; stacks up to 81 calls deep."),
    "C27": ("model-based testing of naming, typing and moving histories on a fake clock (rapid, synctest), and of fault histories over real host processes", "Generated histories; host processes run in real time, so tens of them per run."),
    "C28": ("model-based testing of overlapping profile periods on a simulated clock, and of the commands in real time (rapid, synctest)", "Generated histories; processor profiles and commands in real time, so few of them per run."),
    "C29": ("generated concurrent programs over the whole tracing interface, run in host processes under the race detector (rapid, synctest)", "Generated programs; schedules are sampled from the real scheduler, and the race detector judges all accesses of a run."),
    "C30": ("stateful property-based testing of host processes in generated environments and file systems, every file compared before and after (rapid)", "Generated environments, file systems and act sequences, as root (permissions are not varied)."),
    "C31": ("metamorphic testing: generated histories of tracing, connections, faults and texts are repeated, and descriptors, goroutines and heap compared before and after (rapid, synctest)", "Generated histories; slow leaks below half a kilobyte per repetition are not seen."),
    "C26": ("model-based testing of histories of services, goroutines, allocations and collections against the counter records received by an independent collector (rapid, synctest)", "Generated histories; runtime figures are judged by bounds sampled on either side of the record."),
    "C20": ("model-based stateful testing of environment, file and reload histories (rapid)", "Generated histories over every setting; not exhaustive."),
    "C21": ("fuzzing a host process with generated environments and configuration files (rapid)", "Generated odd configurations; survival and recovery are judged per case."),
}
