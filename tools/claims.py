"""Claimed properties: id -> (level, technique, note)."""
DST = "deterministic simulation with fault injection: "
SAMPLED = "Sampled: seeded search over scenarios, schedules and faults, not exhaustive. "
TRUST = "Trusted: the simulated multiprocessing/clock/scheduler and the reference arithmetic in hpsim/."
CLAIMED = {
 "C01": ("exploration", DST + "every packing published in any simulated process checked geometrically", SAMPLED + TRUST),
 "C02": ("exploration", DST + "figures and report recomputed from the rectangles after every run", SAMPLED + TRUST),
 "C03": ("exploration", DST + "published objective vs. all packings evaluated, over schedules, deadlines and lost workers", SAMPLED + TRUST),
 "C04": ("exploration", DST + "same search under different worker counts, schedules and start methods vs. independent local searches", SAMPLED + TRUST),
 "C05": ("exploration", DST + "exceptions, kills and start failures placed over each worker's life", SAMPLED + TRUST),
 "C06": ("exploration", DST + "deadlock and leaked-worker detection under bounded pipes, kills and interrupts", SAMPLED + "Kill points are ticks and operations on shared objects. " + TRUST),
 "C07": ("exploration", DST + "simulated clock with the limit placed anywhere; work after the limit counted per process", SAMPLED + TRUST),
 "C08": ("exploration", DST + "perfect-cut instances under schedules; work after the maximum counted per process", SAMPLED + TRUST),
 "C09": ("exploration", DST + "recorded evaluations under deadlines vs. best-so-far and 2-opt reference", SAMPLED + TRUST),
 "C10": ("exploration", DST + "strip searches under schedules, deadlines and histories vs. height and completeness invariants", SAMPLED + TRUST),
 "C11": ("exploration", DST + "deep snapshots around searches with every outcome; workers' packings re-solved with the parent's settings", SAMPLED + TRUST),
 "C12": ("exploration", DST + "exceptions injected at seeded instants; invariants and repeat-equals-fresh", SAMPLED + "Injection points are those where CPython can deliver an asynchronous exception or a call can fail. " + TRUST),
 "C13": ("exploration", DST + "histories of edits, failures and searches vs. a reference model", SAMPLED + TRUST),
 "C14": ("exploration", DST + "caller threads preempted at seeded lines, histories and hash seeds vs. solo runs", SAMPLED + "C-level calls are atomic under the GIL. " + TRUST),
 "C15": ("exploration", DST + "storage faults on every kind of export operation; exported files parsed back", SAMPLED + "kaleido's renderer is a stand-in that encodes the figure it is given. " + TRUST),
 "C16": ("exploration", DST + "random source decided by the scheduler, extremes biased", SAMPLED + TRUST),
 "C17": ("exploration", DST + "histories of settings changes, rejections and vanishing directories; constructions counted on the simulated clock", SAMPLED + TRUST),
 "C18": ("exploration", DST + "toy problems under the simulated clock with failing plug-ins; recorded calls vs. reference hill climb", SAMPLED + TRUST),
 "C20": ("exploration", DST + "main process killed at arbitrary instructions and synchronisation points of simulated multi-process searches", SAMPLED + TRUST),
 "C19": ("exploration", DST + "objects handed out kept over histories with failures, deadlines and interrupts; scribbling by the caller", SAMPLED + TRUST),
}
