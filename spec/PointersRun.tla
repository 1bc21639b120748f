----------------------------- MODULE PointersRun ----------------------------
EXTENDS Pointers, Json, IOUtils
VARIABLES k, i, st, out, hist
Sessions == IF "TRACE" \in DOMAIN IOEnv THEN ndJsonDeserialize(IOEnv.TRACE) ELSE <<>>
MaxDepth == IF "DEPTH" \in DOMAIN IOEnv THEN atoi(IOEnv.DEPTH) ELSE 0
INSTANCE MiniRun
=============================================================================
