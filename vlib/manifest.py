"""Writes MANIFEST.json from the list of claimed properties."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("online reference-model monitor", "exploration", "Every output element of generated calls is compared with a long double reference; says nothing about lengths and inputs not run. Trusts the reference transform (self-checked) and the error bound."),
 "C02": ("online reference-model monitor", "exploration", "As C01, for real forward calls, plus exact mirror symmetry and an unchanged input array."),
 "C03": ("online reference-model monitor", "exploration", "As C01, for real inverse calls on conjugate-symmetric spectra, plus round trips and guard words."),
 "C04": ("online reference-model monitor", "exploration", "As C01, for the cosine transform."),
 "C05": ("online reference-model monitor", "exploration", "As C01, for Bluestein transforms, every small length and primes, plus agreement with the plain complex transform."),
 "C06": ("metamorphic runtime monitor", "exploration", "Relations between calls of the same object on generated data; no reference needed."),
 "C09": ("bit-compare runtime monitor over placements", "exploration", "Same call at many placements, bit-compared."),
 "C13": ("history monitor with accounting allocator", "exploration", "Random setup histories against a fresh object, bit-compared, freed memory poisoned."),
 "C14": ("history monitor", "exploration", "Random call histories around a repeated probe call, bit-compared."),
 "C16": ("allocation-fault injection, exhaustive per operation", "fault_enumeration", "Every allocation request of every explored create/setup is failed in turn; lengths are sampled."),
 "C17": ("metamorphic runtime monitor", "exploration", "Exact scaling relations and extreme magnitudes on generated data."),
 "C07": ("AddressSanitizer/UBSan and guard-word monitor", "exploration", "Guarded arrays and library memory under sanitizers on generated calls; lengths are sampled (all small ones)."),
 "C08": ("MemorySanitizer plus poisoned-memory bit-compare monitor", "exploration", "Poison bytes for library memory and outputs, bit-compared; MSan where its instrumentation applies."),
 "C10": ("ThreadSanitizer with a controllable OpenMP runtime, schedule perturbation", "exploration", "Happens-before races on executed code; schedules are sampled (static partitions, delays), results bit-compared over thread counts."),
 "C11": ("ThreadSanitizer plus bit-compare of concurrent histories", "exploration", "Concurrent create/setup/run/destroy histories, sampled."),
 "C12": ("ThreadSanitizer plus bit-compare of concurrent calls", "exploration", "Concurrent calls on one shared real-transform object, sampled."),
 "C15": ("single-stepping instruction-set monitor with emulated processor capabilities (CPUID, XGETBV)", "exploration", "21 emulated processors, five histories each; instructions classified as executed; trusts the small instruction decoder."),
 "C18": ("generated client programs with an online reference-model monitor, several compilers, ASan/UBSan", "exploration", "Random client programs over the header; the evaluator's error bounds are part of what is trusted; the library itself is not run."),
 "C19": ("history monitor with counting, guarding and failing allocator, and AddressSanitizer", "exploration", "Random histories in client programs built for each instruction set; large arrays touched at both ends only."),
 "C20": ("before/after snapshots of the caller's environment; reference-model monitor under four rounding modes", "exploration", "Only the listed observables are compared; initial environments are random."),
}
def write():
    ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
    m = dict(version=1, setup_cmd="true", checks=[dict(property=i, quick_cmd="python3 check.py " + i, thorough_cmd="VERIF_TIER=thorough python3 check.py " + i,
             technique=T[i][0], level=T[i][1], level_note=T[i][2]) for i in ids if i in T],
             not_applicable=[dict(property=i, reason="check not built yet") for i in ids if i not in T])
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
if __name__ == "__main__":
    write()
