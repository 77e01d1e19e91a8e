------------------------------- MODULE T_C06 -------------------------------
EXTENDS C06, Conf
=============================================================================
