------------------------------- MODULE T_C23 -------------------------------
EXTENDS C23, Conf
=============================================================================
