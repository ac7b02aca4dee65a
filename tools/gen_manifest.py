#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, subprocess
TECH = {
 "C01": "round-trip monitor over generated images, headers and colour programs",
 "C02": "online comparison of every encoded byte with the C++ reference encoder and an independent model",
 "C03": "online comparison of every decoded pixel with the C++ reference decoder and an independent model",
 "C04": "per-coefficient error-bound and conservation monitor against a sequential model",
 "C05": "downsampling monitor against the model's low-pass band",
 "C06": "fault injection: every truncation point and retry histories, verdict and pixels against a model",
 "C07": "hostile-input stress under overflow checks, debug assertions, guard bytes, allocation and CPU monitors (AddressSanitizer in the thorough tier)",
 "C08": "fault injection: every output buffer length, with guard bytes and monotonicity monitor",
 "C09": "schedule perturbation through a hook, results of every execution and build compared",
 "C10": "ThreadSanitizer, AddressSanitizer, Miri and rustc runtime checks over perturbed parallel executions",
 "C11": "boundary and random header monitor against a model of the format",
 "C12": "generated programs monitored against a model, inverses compared",
 "C13": "conversion monitor: sample-by-sample definition, untouched samples watched",
 "C14": "bit-exact monitor of generated write/read histories against a model writer",
 "C15": "transform/inverse monitor against the C++-validated model, all small sizes",
 "C16": "exactly-once monitor over recorded chunks, all small sizes",
 "C17": "differential monitor of both API levels",
 "C18": "differential monitor with stale, larger and trailing buffers and guard bytes",
 "C19": "overflow-checked and release builds run the same cases, results compared with a wrapping model",
 "C20": "per-coefficient monitor against the level schedule, every 16-bit value",
 "C21": "lock-step monitor of block coder against a model, outside coefficients scrambled and watched",
 "C22": "black-box monitor of the tools: files, pixels, exit codes",
 "C23": "monitor of the presets against the reference's macros and the documented formulas",
 "C24": "counting allocator: peak and remaining allocations of every call watched",
 "C26": "fault injection into readers and writers (short, interrupted, failing), bytes and error kinds watched",
 "C28": "fault injection with a known cause, the error value compared with it",
 "C29": "every edge of the control flow counted by compiler instrumentation, work of calls of different size compared",
 "C27": "misuse stress under AddressSanitizer and rustc's runtime checks, watched memory around every argument, two-run noninterference monitor",
 "C25": "fault injection into single blocks, decoded data compared with a sequential model and the undamaged decode",
}
NOTE = {
 "C02": "trusts the vendored reference codec; one known finding (denominators 2, 4, 8) is recognised only where gfwx-rs equals the truncating model",
 "C03": "trusts the vendored reference codec; one known finding (denominators 2, 4, 8) is recognised only where gfwx-rs equals the truncating model",
 "C10": "held on the executions that ran; TSan and Miri see only the interleavings that occurred",
 "C09": "held on the schedules that occurred; their number is in the evidence",
}
head = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines()
hooks = [l.split()[0] for l in head if "schedule hook" in l]
props = [json.loads(l) for l in open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"))]
m = {
 "version": 1,
 "setup_cmd": "python3 setup.py",
 "hooks": {"guard": "--cfg gfwx_verif", "enable": "RUSTFLAGS='--cfg gfwx_verif' when the harness is built; without it the hook module does not exist", "source_commits": hooks},
 "checks": [{"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
             "technique": TECH[p["id"]], "level": "exploration",
             "level_note": NOTE.get(p["id"], "held on the executions observed (counts in the evidence), which the generators aim at geometry borders and extreme data; trusts the harness and its model")} for p in props],
 "not_applicable": [],
 "notes": "Every check builds what it needs from /repo's working tree (target/ is not committed) and runs seeded monitors for a bounded time; VERIF_SEED chooses the cases.",
}
json.dump(m, open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "w"), indent=1)
