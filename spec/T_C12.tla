------------------------------- MODULE T_C12 -------------------------------
EXTENDS T_PROG
=============================================================================
