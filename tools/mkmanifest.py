#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of properties the simulator implements."""
import json, subprocess
ids=[l.split()[0] for l in subprocess.run(["/verif/target/release/simimg","list"],capture_output=True,text=True).stdout.splitlines()]
level={l.split()[0]:l.split()[1] for l in subprocess.run(["/verif/target/release/simimg","list"],capture_output=True,text=True).stdout.splitlines()}
props=[json.loads(l) for l in open("/verif/properties.jsonl")]
tech={
"C01":"deterministic simulation: seeded delivery schedules (short, one-byte, interrupted reads; file, BufRead and Read seams) against the single-delivery run as reference",
"C02":"deterministic simulation: seeded source read/seek failures at operation and byte positions, checked against the fault-free run",
"C03":"deterministic simulation: seeded torn files (every kind of cut position), checked against the complete file's decode",
"C04":"deterministic simulation: persistent failures, early end and corruption with a step bound per operation",
"C05":"deterministic simulation: seeded partial and interrupted writes, bytes at the sink compared with an ideal sink",
"C06":"deterministic simulation: seeded write/flush/seek/close failures and full disks, success reports checked against what reached the sink",
"C07":"deterministic simulation: store/load histories over a fragmented simulated disk, decoded image compared with the stored one",
"C08":"deterministic simulation: seeded animation histories replayed against an executable canvas model",
"C09":"deterministic simulation: seeded histories of rectangle reads with source failures, checked against the full image",
"C10":"deterministic simulation: allocator seam accounts every byte while seeded valid and damaged streams are decoded under seeded limits",
"C11":"deterministic simulation: seeded storage-damage sequences, checked for panics, aborts and hangs",
"C12":"deterministic simulation: seeded probing/opening histories on a simulated source with faults, checked against a model of the stream position and format table",
"C13":"deterministic simulation: seeded histories of metadata queries with faults on typed and boxed decoders, checked against the plain decode",
"C14":"deterministic simulation: seeded thread schedules of the real rayon pool, result compared with the sequential iterator",
"C15":"deterministic simulation: seeded thread schedules, processor counts and I/O schedules of the multi-threaded codecs, result compared with the default schedule",
"C16":"deterministic simulation: seeded interleavings of independent operations on simulated threads and in sequence, results compared with isolated runs",
"C17":"deterministic simulation: seeded histories of encoder calls with sink failures, abandonment and retry, checked against a protocol model",
"C18":"deterministic simulation: seeded memory conditions (dirty/unaligned buffers, stale and minimally aligned allocations), output compared with the clean run",
}
note={
"exploration":"Seeded search, not exhaustive: assurance grows with the number of runs reported in the evidence file. Trusts the simulator's seams, its generators and std; dependencies are executed as they are.",
"fault_enumeration":"Seeded search over fault positions and kinds (positions are drawn from those the fault-free run visited), not exhaustive. Trusts the simulator's seams, its generators and std; dependencies are executed as they are.",
}
checks=[dict(property=p["id"],quick_cmd=f"bash check.sh {p['id']} quick",thorough_cmd=f"bash check.sh {p['id']} thorough",evidence_file=f"evidence/{p['id']}.json",technique=tech[p["id"]],level=level[p["id"]],level_note=note[level[p["id"]]]) for p in props if p["id"] in ids]
pure="{} is a pure function of its arguments: no thread, clock, I/O, randomness, stored state or fault can influence it, so there is nothing for a simulator to schedule or inject; deciding it needs input enumeration or proof, not simulation."
na={
"C19":pure.format("Colour conversion"),
"C20":pure.format("Resampling and filtering"),
"C21":pure.format("A geometric transform"),
"C22":pure.format("Indexing a pixel container"),
"C23":"Whether a file decodes to the pixels of its specification is a pure function of the file, against an oracle (a second implementation of every format) that simulation does not supply. The parts that depend on history, delivery, faults and storage are C01-C03, C07 and C08.",
}
nal=[dict(property=k,reason=v) for k,v in na.items()]
nal+=[dict(property=p["id"],reason="the check is not built yet") for p in props if p["id"] not in ids and p["id"] not in na]
m=dict(version=1,setup_cmd="bash setup.sh",checks=checks,not_applicable=nal,notes="No hooks in /repo are needed: every seam is either one image already has (Read/BufRead/Seek/Write, file paths, Limits) or lies below it (libc symbols for files, threads, futexes, clocks and randomness, and the global allocator) and is replaced in the simulator's own binary. See DESIGN.md.")
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1)
import jsonschema
jsonschema.validate(m,json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(checks),"checks")
