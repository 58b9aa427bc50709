----------------------------- MODULE ExchangeMC -----------------------------
EXTENDS Exchange, Json, IOUtils
MCLevels == {1, 2}
World == [levels |-> MCLevels, nticks |-> NTicks, batch |-> MaxBatch, funds |-> Funds]
ASSUME "WORLD_FILE" \notin DOMAIN IOEnv \/ JsonSerialize(IOEnv.WORLD_FILE, World)
=============================================================================
