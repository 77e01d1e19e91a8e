------------------------------- MODULE T_C04 -------------------------------
EXTENDS C04, Conf
=============================================================================
