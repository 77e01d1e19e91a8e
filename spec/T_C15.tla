------------------------------- MODULE T_C15 -------------------------------
EXTENDS C15, Conf
=============================================================================
