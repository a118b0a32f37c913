------------------------------- MODULE T_C11 -------------------------------
EXTENDS T_PROG
=============================================================================
