------------------------------ MODULE ConvertMC ------------------------------
EXTENDS Convert, TLC, Json, IOUtils
ASSUME "WORLD_FILE" \notin DOMAIN IOEnv \/ JsonSerialize(IOEnv.WORLD_FILE, [times |-> Times, maxlen |-> MaxLen, bounds |-> Bounds])
=============================================================================
