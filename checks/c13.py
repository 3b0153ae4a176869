"""Exhaustive check of spec/RingBuf.tla in its in-memory form: every reachable state of small circles under
producers reserving, writing and committing in any order, a consumer reading and releasing, locks, drains and
shutdown, waiting operations included; every transition is replayed on the real VolatileRingBuffer (operations that
wait run on threads of their own until all have returned or sleep), comparing results, completions, all twelve
counters and the bytes.  Random long histories on larger circles, and concurrent histories checked for
linearizability.  Bounded circle size, record sizes and number of live records."""
import ring


def run(ctx):
    ring.volatile(ctx)
