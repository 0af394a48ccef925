------------------------------ MODULE SFHTrace --------------------------
EXTENDS Integers, TLC, Json, IOUtils
VARIABLES l, s, bad, ntr, nf
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
INSTANCE SFH WITH U <- 10000
INSTANCE TraceKit
=============================================================================
