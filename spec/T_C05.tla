------------------------------- MODULE T_C05 -------------------------------
EXTENDS C05, Conf
=============================================================================
