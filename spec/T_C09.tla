------------------------------- MODULE T_C09 -------------------------------
EXTENDS C09, Conf
=============================================================================
