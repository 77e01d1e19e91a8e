------------------------------- MODULE T_C30 -------------------------------
EXTENDS C30, Conf
=============================================================================
