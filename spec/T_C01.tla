------------------------------- MODULE T_C01 -------------------------------
EXTENDS C01, Conf
=============================================================================
