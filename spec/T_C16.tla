------------------------------- MODULE T_C16 -------------------------------
EXTENDS C16, Conf
=============================================================================
