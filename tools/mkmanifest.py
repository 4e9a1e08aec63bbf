#!/usr/bin/env python3
# writes MANIFEST.json from the list of claimed checks below
import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l)["id"] for l in open(V+"/properties.jsonl")]
TECH="deterministic simulation: seeded search over operations, schedules and injected faults against a reference model"
NOTE={
"X02":"seeded sampling of generated programs and re-entrant histories; opcodes limited to a subset that is not pure arithmetic corner cases; bounded call depth",
"M01":"seeded sampling of growth histories and refusals; memories up to a few hundred pages",
"M02":"seeded sampling of growth histories over programs that keep memory addresses live across calls, growth and re-entry",
"X01":"seeded sampling of call chains between modules and host functions, bounded depth",
"X03":"seeded sampling of table histories (table instructions, host writes, imports, element segments)",
"L01":"seeded sampling; refusals hit memories, tables, code generator and executable memory, not the loader's small bookkeeping blocks; no truncated sections",
"L02":"seeded sampling of whole lives of modules and namespaces with refused memory; refusals as for L01",
"L03":"seeded sampling of load histories with start functions and segments",
"L04":"seeded sampling of histories of modules that load, look up and unload others from inside, with start functions and refused memory; running code itself is not unloaded",
"N01":"seeded sampling of namespace histories with notifications that act on the namespace",
"R01":"seeded sampling of patterns of the documented syntax, texts, divisions into pieces and interleavings of several matches",
"R02":"seeded sampling of patterns and refusal points (any single allocation, or all from one on)",
"J01":"seeded sampling of instruction sequences of the x86-64 back end, refusal points and interleaved compilations; programs of at most a few hundred instructions",
"J02":"seeded sampling of instruction sequences of the x86-64 back end, serialization points, deaths and restore failures; buffers truncated or of another kind, not corrupted inside",
"S02":"seeded sampling of operation histories and stdio faults; in-memory C library; buffers inside the program's memory",
"S03":"seeded sampling of call histories, host outcomes, memory growth and refusals; simulated uvwasi and host environment",
"S04":"seeded sampling of signatures, nesting, invocation histories and refusals; native side and closure memory simulated, real libffi calls",
"S05":"seeded sampling of attach/detach histories, namespaces and refusals; simulated libuv and uvwasi",
"S06":"seeded sampling of program files, arguments and faults of C stdio, memory and WASI; simulated C library and uvwasi; one process per run",
"S01":"seeded sampling of schedules, thread refusals and spurious wakeups at lock, condition and host operations and inside the binding; simulated libuv on one core",
"T01":"seeded sampling of schedules at memory-access granularity, not exhaustive; sequentially consistent memory; generated code is not preempted between its calls into the engine",
"T02":"seeded sampling of schedules and refusals at memory-access granularity, not exhaustive; sequentially consistent memory",
}
NA={
"Z01":"a pure function of the operands: no schedule, clock, I/O, fault or history for a simulator to decide",
"Z02":"a pure function of the input bytes: no schedule, clock, I/O, fault or history for a simulator to decide",
}
checks=[dict(property=p,quick_cmd=f"sim/check.sh {p} quick",thorough_cmd=f"sim/check.sh {p} thorough",technique=TECH,level="exploration",level_note=NOTE[p]) for p in props if p in NOTE]
na=[dict(property=p,reason=NA.get(p,"check under construction")) for p in props if p not in NOTE]
json.dump(dict(version=1,setup_cmd="sim/build.sh",checks=checks,not_applicable=na),open(V+"/MANIFEST.json","w"),indent=1)
print(len(checks),"checks")
