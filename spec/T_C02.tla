------------------------------- MODULE T_C02 -------------------------------
EXTENDS C02, Conf
=============================================================================
