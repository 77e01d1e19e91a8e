------------------------------- MODULE T_C14 -------------------------------
EXTENDS C14, Conf
=============================================================================
