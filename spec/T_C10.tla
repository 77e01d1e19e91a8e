------------------------------- MODULE T_C10 -------------------------------
EXTENDS C10, Conf
=============================================================================
