------------------------------- MODULE StopMC -------------------------------
EXTENDS Stop
=============================================================================
