------------------------------- MODULE T_C17 -------------------------------
EXTENDS C17, Conf
=============================================================================
