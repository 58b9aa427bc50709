------------------------------- MODULE StorageMC -------------------------------
EXTENDS Storage
=============================================================================
