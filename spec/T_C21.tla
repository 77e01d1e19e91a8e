------------------------------- MODULE T_C21 -------------------------------
EXTENDS C21, Conf
=============================================================================
