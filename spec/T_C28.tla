------------------------------- MODULE T_C28 -------------------------------
EXTENDS C28, Conf
=============================================================================
