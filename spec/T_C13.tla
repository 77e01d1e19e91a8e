------------------------------- MODULE T_C13 -------------------------------
EXTENDS C13, Conf
=============================================================================
