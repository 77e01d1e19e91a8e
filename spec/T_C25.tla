------------------------------- MODULE T_C25 -------------------------------
EXTENDS C25, Conf
=============================================================================
