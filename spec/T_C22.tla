------------------------------- MODULE T_C22 -------------------------------
EXTENDS C22, Conf
=============================================================================
