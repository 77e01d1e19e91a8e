------------------------------- MODULE T_C18 -------------------------------
EXTENDS C18, Conf
=============================================================================
