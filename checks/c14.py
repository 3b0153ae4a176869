"""Exhaustive check of spec/RingBuf.tla in its persistent forms with a crash (reopening the file as it is), damage to
any one byte and torn mixtures of successive file contents after every step of small histories; every transition and
every damage is replayed on the real NonVolatileRingBuffer and its file.  Random long histories on larger files.
Damage to a record's size field and torn files are judged by bounds (nothing that was not written, losses counted)
instead of exactly.  Bounded file and record sizes."""
import ring


def run(ctx):
    ring.persistent(ctx)
