------------------------------- MODULE T_C08 -------------------------------
EXTENDS C08, Conf
=============================================================================
