------------------------------- MODULE MCFind -------------------------------
EXTENDS Find
=============================================================================
