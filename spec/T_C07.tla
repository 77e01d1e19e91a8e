------------------------------- MODULE T_C07 -------------------------------
EXTENDS C07, Conf
=============================================================================
