#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": "online agreement monitor over randomized and adversarially chosen sessions of the real code",
 "C02": "tampering workload with an accept/reject and key-equality monitor on both sides",
 "C03": "lock-step differential monitoring against an independent SRP peer",
 "C04": "lock-step differential monitoring against an independent RFC 5054 peer",
 "C05": "accept/refuse oracle over hostile public values",
 "C06": "assertions on the observed group constants (primality, bit length, RFC values) from many threads",
 "C07": "accept/refuse oracle over all near misses of proofs and authenticators",
 "C08": "instruction counting of refusing calls under valgrind/callgrind",
 "C09": "online agreement monitor over randomized SPAKE2 sessions with a scripted generator",
 "C10": "tampering and cross-session replay workload with a key-inequality monitor",
 "C11": "error oracle over malformed messages, independent point decoder",
 "C12": "lock-step differential monitoring against an independent SPAKE2 peer",
 "C13": "debug-output monitor: equality across secrets, injectivity across identities",
 "C14": "online agreement monitor over all AuCPace variants and modes",
 "C15": "man-in-the-middle workload with a key-release monitor and an independent oracle for what may be accepted",
 "C16": "neutral-element fault injection at every receiving call, refusal oracle",
 "C17": "lock-step differential monitoring against independent AuCPace parties",
 "C18": "offline checking of recorded query histories against a model of registered and unregistered replies",
 "C19": "round-trip and corruption monitors on serialized messages",
 "C20": "instrumented password hasher with fault injection",
 "C21": "session-id length and binding monitors",
 "C22": "recording and perturbing random generator, flow and freshness monitor over histories",
 "C23": "offline checking of concurrent histories against a sequential model; ThreadSanitizer",
 "C24": "hostile-peer workload under panic, abort and hang monitors, overflow checks, AddressSanitizer; Miri (thorough)",
 "C25": "differential event logs of many builds; Miri on a 32-bit big-endian target (thorough: three targets)",
 "C27": "monitored Group implementations (other orders and element lengths) under the real protocol, against an independent peer",
 "C28": "non-interference monitor over the errors of paired runs in unrelated worlds",
 "C29": "system call monitor (strace) over the recorded workloads of the other monitors, with the environment block made unreadable",
 "C30": "comparison of instruction and address traces (valgrind lackey) across secrets, and memcheck with the secrets marked undefined",
 "C31": "lock-step differential monitoring against Edwards25519 arithmetic on big integers",
 "C32": "lock-step differential monitoring of encoded bytes against independent encoders, refusal oracle for corrupted encodings",
 "C33": "counting allocator and processor-time monitor over long runs and growing inputs",
 "C34": "recording database: online comparison of every read, reply and key with the records stored at that moment",
 "C26": "wire scanner for secrets, guess-testing monitor over recorded transcripts",
}
N = {
 "*": "Holds on every execution observed (counts in the evidence); cases are drawn from seeded generators and sweeps, not enumerated completely. Trusts the independent oracles in harness/src and the generator/hasher instrumentation.",
 "C06": "All seven groups are checked completely (Miller-Rabin for primality); thread orders are sampled.",
 "C08": "Work is instructions executed as counted by callgrind in an unoptimised and an optimised build on this processor; cache and micro-architectural effects are not observed.",
 "C23": "Histories and thread schedules are sampled; races are those ThreadSanitizer observes in them.",
 "C29": "Side effects are those visible as system calls, signals or reads of the environment block of a native Linux process while the workloads run.",
 "C30": "Traces of sampled and structured secrets in an unoptimised and an optimised build on this processor; memcheck follows all secret bytes at once, up to the public verdicts. Micro-architectural effects are not observed.",
 "C33": "Memory is what passes through the global allocator; work is processor time with wide margins (super-linear growth over a factor of 16), confirmed three times. Leaks are seen when they grow within the uses counted.",
 "C24": "Undefined behaviour is what overflow checks, AddressSanitizer and (thorough) Miri observe on the executions; inputs are generated, not exhaustive.",
 "C25": "Every feature set of spake2 and srp and (thorough: all, quick: a covering sample with the given seed) of aucpace is built; behaviour is compared on one deterministic workload per seed.",
}
checks = []
for k in sorted(T):
    checks.append({"property": k, "quick_cmd": f"python3 check.py {k} --tier quick", "thorough_cmd": f"python3 check.py {k} --tier thorough", "evidence_file": f"evidence/{k}.json", "technique": T[k], "level": "exploration", "level_note": N.get(k, N["*"])})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": [], "notes": "No hooks in /repo are needed: everything the monitors observe is public. Findings and repairs: KNOWN_FINDINGS.txt and DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
