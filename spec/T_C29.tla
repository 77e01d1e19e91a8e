------------------------------- MODULE T_C29 -------------------------------
EXTENDS C29, Conf
=============================================================================
