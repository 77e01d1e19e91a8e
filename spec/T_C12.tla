------------------------------- MODULE T_C12 -------------------------------
EXTENDS C12, Conf
=============================================================================
