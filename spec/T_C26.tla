------------------------------- MODULE T_C26 -------------------------------
EXTENDS C26, Conf
=============================================================================
