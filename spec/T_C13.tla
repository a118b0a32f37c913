------------------------------- MODULE T_C13 -------------------------------
EXTENDS T_PROG
=============================================================================
