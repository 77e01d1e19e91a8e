------------------------------- MODULE T_C19 -------------------------------
EXTENDS C19, Conf
=============================================================================
