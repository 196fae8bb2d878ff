import json
T={"C01":"write histories, crash-free restarts and reads under short reads and latencies, against the generated rows",
"C02":"simulated write histories; bytes on the simulated disk judged by an independent strict decoder",
"C03":"files of an independent encoder with randomised layout, read under short reads and latencies",
"C04":"scan histories with seeded capacities and calls past the end, against a row array",
"C05":"seeded Seek/Next histories against a row array",
"C06":"seeded projected histories against the projected row array",
"C07":"write fault injection at profiled operations, callers that go on after errors",
"C08":"read fault injection at profiled operations, callers that retry and seek again",
"C09":"crashes inside writes, lost and zeroed tails, readers polling during the write",
"C10":"seeded statement-level preemption of independent tasks, compared with solo runs",
"C11":"seeded statement-level preemption of batch readers over one reader, compared with solo runs",
"C12":"handle table of the simulated disk under fault injection and descriptor limits",
"C13":"simulated write histories; footer statistics against the rows",
"C14":"callers that overwrite passed buffers and keep returned values, compared with callers that do not",
"C15":"same rows under different splits, disk timings, neighbours and process histories; files compared",
"C17":"corruption of stored bytes and of encoded fields under reads; crashes, stalls, leaks and memory observed",
"C18":"simulated write histories; stripe directory and growth of the file on the simulated disk judged after every Write",
"C19":"bad sectors and overwritten stream data under projected Seek/Next histories, against the row array",
 "C22":"handle table and live heap at points of write and read histories over many stripes or megabytes",
 "C21":"paths replaced, removed and spoiled at seeded points of reads, with disk faults and crashes, against the rows of the file that was opened",
 "C20":"misused calls at seeded places of write and read histories, against the rows of the calls that succeeded"}
m={"version":1,"setup_cmd":"./check.sh build /tmp/goorcsim.setup && rm -rf /tmp/goorcsim.setup",
"hooks":{"guard":"none: /repo has no hooks; the simulator instruments copies of its files","enable":"go build -overlay (see check.sh)","source_commits":[]},
"checks":[{"property":p,"quick_cmd":"./check.sh "+p,"thorough_cmd":"VERIF_TIER=thorough ./check.sh "+p,
 "technique":"deterministic simulation with fault injection: "+t,"level":"exploration",
 "level_note":"seeded search over plans; a clean batch is evidence, not proof. Interleavings are of whole statements."} for p,t in T.items()],
"not_applicable":[{"property":"C16","reason":"pure functions of one value: no schedule, clock, I/O, fault or history for a simulator to control; conversions on the read and write path are covered by C01 and C03."}]}
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1)
