--------------------------- MODULE EvolutionTrace ---------------------------
EXTENDS Evolution, Json, IOUtils
VARIABLES l, s, bad, ntr, nf
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
INSTANCE TraceKit
=============================================================================
