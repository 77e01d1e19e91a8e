------------------------------- MODULE T_C03 -------------------------------
EXTENDS C03, Conf
=============================================================================
