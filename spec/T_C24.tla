------------------------------- MODULE T_C24 -------------------------------
EXTENDS C24, Conf
=============================================================================
