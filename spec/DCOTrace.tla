---------------------------- MODULE DCOTrace ---------------------------
EXTENDS DCO, TLC, Json, IOUtils
VARIABLES l, s, bad, ntr, nf
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
INSTANCE TraceKit
=============================================================================
