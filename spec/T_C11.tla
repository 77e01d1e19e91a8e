------------------------------- MODULE T_C11 -------------------------------
EXTENDS C11, Conf
=============================================================================
