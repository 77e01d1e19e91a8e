------------------------------- MODULE T_C27 -------------------------------
EXTENDS C27, Conf
=============================================================================
