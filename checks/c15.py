"""Exhaustive check of spec/RingBuf.tla without overwriting: writers that wait, cursor and plain readers, releases,
drains, locks, shutdown and reopening, with every waiting operation's wake-up; every transition is replayed on the real
NonVolatileRingBuffer, waiting operations on threads of their own.  Random long histories on larger files; a writer and a
reader at the same time.
Bounded file and record sizes."""
import ring


def run(ctx):
    ring.blocking(ctx)
