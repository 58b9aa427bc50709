------------------------------- MODULE BatchMC -------------------------------
EXTENDS Batch, Json, IOUtils
MCPools == {1, 2, 3}
ASSUME "WORLD_FILE" \notin DOMAIN IOEnv \/ JsonSerialize(IOEnv.WORLD_FILE, [n |-> N, steps |-> Steps])
=============================================================================
