------------------------------- MODULE T_C20 -------------------------------
EXTENDS C20, Conf
=============================================================================
